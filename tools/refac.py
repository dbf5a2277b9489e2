"""dev tool: behaviour-preserving edits of /repo on which every check has to stay quiet.
refac.py [names] [-p props] : applies each edit to a scratch copy, runs the checks there"""
import os, subprocess, sys, time, json
IT, VE, AR, SL, RA, AC = ('src/iter/implementors/%s.rs' % x for x in ('iter', 'vec', 'array', 'slice', 'range', 'atomic_counter'))
AC = 'src/iter/atomic_counter.rs'
BI = 'src/iter/buffered/iter.rs'
FE, FO = 'src/iter/default_fns/for_each.rs', 'src/iter/default_fns/fold.rs'
GREATER = '''                Ordering::Greater => {
                    if self.completed.load(atomic::Ordering::Relaxed) {
                        return None;
                    }
'''
WAIT = '''        loop {
            let yielded_count = self.yielded_counter.current();
            match begin_idx.cmp(&yielded_count) {
                // begin_idx==yielded_count => it is our job to provide the items
                Ordering::Equal => match self.completed.load(atomic::Ordering::Relaxed) {
                    true => return None,
                    false => return Some(begin_idx),
                },

                Ordering::Less => return None,

                // begin_idx > yielded_count => we need the other items to be yielded
                Ordering::Greater => {
                    if self.completed.load(atomic::Ordering::Relaxed) {
                        return None;
                    }
                }
            }
        }
'''
GETBODY = open('/repo/' + IT).read().split('unsafe fn get(&self, item_idx: usize) -> Option<T> {\n')[1].split('\n    }\n\n    fn fetch_n')[0]
FETCHBUF = '''            let buffer = (0..n)
                .map(|_| iter.next())
                .take_while(|x| x.is_some())
                .map(|x| x.expect("is_some is checked"))
                .collect::<Vec<_>>();
'''
WAITFN = '''    /// waits for the turn of `idx`; returns whether or not it is reached
    fn wait_turn(&self, idx: usize) -> bool {
        while self.yielded_counter.current() < idx {
            if self.completed.load(atomic::Ordering::Relaxed) {
                return false;
            }
        }
        self.yielded_counter.current() == idx && !self.completed.load(atomic::Ordering::Relaxed)
    }

    pub(crate) fn complete_on_drop('''
FNUP = '''        self.current
            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
                Some(current.saturating_add(len))
            })
            .unwrap_or_else(|current| current)
'''
TRYLEN = '''        let len = match current.cmp(&initial_len) {
            std::cmp::Ordering::Less => initial_len - current,
            _ => 0,
        };
        Some(len)
'''
PROG = '''        let begin_idx = self.counter().fetch_and_add(number_to_fetch);
        match begin_idx.cmp(&self.initial_len()) {
            Ordering::Less => Some(begin_idx),
            _ => None,
        }
'''
R = {
 'spin-hint': [(IT, GREATER, GREATER.replace('return None;\n                    }\n', 'return None;\n                    }\n                    std::hint::spin_loop();\n'), 2)],
 'yield-backoff': [(IT, WAIT, WAIT.replace('        loop {', '        let mut spins = 0u32;\n        loop {').replace('return None;\n                    }\n                }', 'return None;\n                    }\n                    spins = spins.wrapping_add(1);\n                    if spins % 64 == 0 {\n                        std::thread::yield_now();\n                    } else {\n                        std::hint::spin_loop();\n                    }\n                }'))],
 'wait-helper': [(IT, '    pub(crate) fn complete_on_drop(', WAITFN),
                 (IT, WAIT, '        self.wait_turn(begin_idx).then_some(begin_idx)\n'),
                 (IT, GETBODY, '''        if !self.wait_turn(item_idx) {
            return None;
        }
        let completion = self.complete_on_drop();
        // SAFETY: no other thread has the valid condition to iterate, they are waiting
        let next = unsafe { self.mut_iter() }.next();
        if next.is_some() {
            completion.cancel();
            _ = self.yielded_counter.fetch_and_increment();
        }
        next''')],
 'cas-loop': [(AC, FNUP, '''        let mut current = self.current.load(Ordering::Acquire);
        loop {
            let next = current.saturating_add(len);
            match self.current.compare_exchange_weak(current, next, Ordering::AcqRel, Ordering::Acquire) {
                Ok(x) => return x,
                Err(x) => current = x,
            }
        }
''')],
 'cas-strong': [(AC, FNUP, '''        loop {
            let current = self.current.load(Ordering::Acquire);
            let next = current.checked_add(len).unwrap_or(usize::MAX);
            if self.current.compare_exchange(current, next, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                return current;
            }
        }
''')],
 'fetch-n-loop': [(IT, FETCHBUF, '''            let mut buffer = Vec::with_capacity(n.min(16));
            for _ in 0..n {
                match iter.next() {
                    Some(x) => buffer.push(x),
                    None => break,
                }
            }
''')],
 'fetch-n-while': [(IT, FETCHBUF, '''            let mut buffer = Vec::new();
            while buffer.len() < n {
                let Some(x) = iter.next() else { break };
                buffer.push(x);
            }
'''), (IT, '''                    let older_count = self.progress_yielded_counter(n);
                    assert_eq!(older_count, begin_idx);
                    None
''', '''                    _ = self.progress_yielded_counter(n);
                    None
''')],
 'by-ref-take': [(IT, FETCHBUF, '''            let buffer: Vec<T> = iter.by_ref().take(n).collect();
''')],
 'seqcst': [(IT, 'atomic::Ordering::Relaxed', 'atomic::Ordering::SeqCst', None), (AC, 'Ordering::AcqRel, Ordering::Acquire', 'Ordering::SeqCst, Ordering::SeqCst'), (AC, 'load(Ordering::Acquire)', 'load(Ordering::SeqCst)', None)],
 'acq-rel': [(IT, 'load(atomic::Ordering::Relaxed)', 'load(atomic::Ordering::Acquire)', None), (IT, 'store(true, atomic::Ordering::SeqCst)', 'store(true, atomic::Ordering::Release)', None), (AC, 'store(new_value, Ordering::SeqCst)', 'store(new_value, Ordering::Release)')],
 'exit-order': [(IT, '''        self.counter().store(usize::MAX);
        self.completed.store(true, atomic::Ordering::SeqCst);
''', '''        self.completed.store(true, atomic::Ordering::SeqCst);
        self.counter().store(usize::MAX);
''')],
 'exit-no-counter': [(IT, '''        self.counter().store(usize::MAX);
''', '')],
 'fast-path': [(f, PROG, '''        // nothing is left: no need to reserve
        if self.counter().current() >= self.initial_len() {
            return None;
        }
''' + PROG) for f in (VE, SL, RA, AR)],
 'if-else': [(f, PROG, '''        let begin_idx = self.counter().fetch_and_add(number_to_fetch);
        if begin_idx < self.initial_len() {
            Some(begin_idx)
        } else {
            None
        }
''') for f in (VE, SL, RA, AR)] + [(f, TRYLEN, '        Some(initial_len.saturating_sub(current))\n') for f in (VE, SL, RA, AR)],
 'end-helper': [(f, '''        let end_idx = begin_idx
            .saturating_add(n)
            .min(self.initial_len())
            .max(begin_idx);

        match begin_idx.cmp(&end_idx) {
            Ordering::Equal => None,
            _ => {
''', '''        let remaining = self.initial_len() - begin_idx;
        let end_idx = begin_idx + std::cmp::min(n, remaining);
        match end_idx > begin_idx {
            false => None,
            true => {
                let _ = end_idx;
''') for f in (VE, SL)],
 'take-one-read': [(f, '''        let mut value = MaybeUninit::<T>::uninit();
        let dst_ptr = value.as_mut_ptr();

        dst_ptr.write(src_ptr.read());
        value.assume_init()
''', '''        let _ = MaybeUninit::<u8>::uninit();
        std::ptr::read(src_ptr)
''') for f in (VE, AR)],
 'vec-exit': [(VE, '        drop(self.fetch_n(self.vec_len));\n', '''        if let Some(chunk) = self.fetch_n(self.vec_len) {
            chunk.values.for_each(drop);
        }
'''), (AR, '        drop(self.fetch_n(N));\n', '''        if let Some(chunk) = self.fetch_n(N) {
            for x in chunk.values {
                drop(x);
            }
        }
''')],
 'vec-drop': [(VE, '''            let mut vec = ManuallyDrop::take(self.vec.get_mut());
            vec.set_len(0);
            let remaining = vec.as_mut_ptr().add(current);
            std::ptr::drop_in_place(std::ptr::slice_from_raw_parts_mut(remaining, num_remaining));
''', '''            let mut vec = ManuallyDrop::take(self.vec.get_mut());
            std::ptr::copy(vec.as_ptr().add(current), vec.as_mut_ptr(), num_remaining);
            vec.set_len(num_remaining);
            drop(vec);
''')],
 'vec-seq': [(VE, '''        let remaining_vec: Vec<_> = (current..self.vec_len)
            .map(|i| unsafe { self.take_one(i) })
            .collect();
        self.counter().store(self.vec_len);
''', '''        let mut remaining_vec = Vec::with_capacity(self.vec_len - current);
        for i in current..self.vec_len {
            remaining_vec.push(unsafe { self.take_one(i) });
        }
        let _ = self.counter().fetch_and_add(self.vec_len);
''')],
 'vec-seq-inplace': [(VE, '''        let remaining_vec: Vec<_> = (current..self.vec_len)
            .map(|i| unsafe { self.take_one(i) })
            .collect();
        self.counter().store(self.vec_len);
        remaining_vec.into_iter()
''', '''        let this = ManuallyDrop::new(self);
        let mut vec = unsafe { std::ptr::read(this.vec.get()) };
        let num_remaining = this.vec_len - current;
        unsafe {
            let ptr = vec.as_mut_ptr();
            std::ptr::copy(ptr.add(current), ptr, num_remaining);
            vec.set_len(num_remaining);
        }
        ManuallyDrop::into_inner(vec).into_iter()
''')],
 'for-each-loop': [(FE, '''            while let Some(value) = iter.next() {
                f(value);
            }
''', '''            loop {
                match iter.next() {
                    Some(value) => f(value),
                    None => break,
                }
            }
'''), (FE, '                chunk.values.for_each(&mut f);\n', '''                for value in chunk.values {
                    f(value);
                }
'''), (FE, '''                let begin_idx = chunk.begin_idx;
                for (i, value) in chunk.values.enumerate() {
                    f(begin_idx + i, value);
                }
''', '''                let mut idx = chunk.begin_idx;
                for value in chunk.values {
                    f(idx, value);
                    idx += 1;
                }
'''), (FO, '''                for value in chunk.values {
                    result = f(result, value);
                }
''', '                result = chunk.values.fold(result, &mut f);\n')],
 'buf-pull': [(BI, '''        loop {
            match core_iter.next() {
                Some(x) => match self.values.get_mut(i) {
                    Some(value) => *value = Some(x),
                    None => self.values.push(Some(x)),
                },
                None => break,
            }

            i += 1;
            if i == self.chunk_size() {
                break;
            }
        }
''', '''        self.values.clear();
        while i < self.chunk_size {
            let Some(x) = core_iter.next() else { break };
            self.values.push(Some(x));
            i += 1;
        }
''')],
 'buf-iter-fields': [(BI, '''        if self.current_idx < self.initial_len {
            let next = self.values[self.current_idx].take();
            if next.is_some() {
                self.current_idx += 1;
            } else {
                self.current_idx = self.initial_len;
            }
            next
        } else {
            None
        }
''', '''        if self.current_idx >= self.initial_len {
            return None;
        }
        let next = self.values.get_mut(self.current_idx)?.take();
        self.current_idx += 1;
        next
''')],
 'iter-trylen': [(IT, '''                match current.cmp(&initial_len) {
                    std::cmp::Ordering::Less => initial_len - current,
                    _ => 0,
                }
''', '                initial_len.saturating_sub(current)\n')],
 'range-get': [(RA, '''            Ordering::Less => Some(self.range.start + item_idx.into()),
            _ => None,
''', '''            Ordering::Less => {
                let start: usize = self.range.start.into();
                Some((start + item_idx).into())
            }
            Ordering::Equal | Ordering::Greater => None,
'''), (RA, '        self.counter().store(self.range.end.into())\n', '        self.counter().store(self.initial_len())\n')],
 'slice-seq': [(SL, '        self.counter().store(self.slice.len())\n', '        _ = self.counter().fetch_and_add(self.slice.len());\n')],
 'spin-limit-yield': [(IT, GREATER, GREATER.replace('return None;\n                    }\n', 'return None;\n                    }\n                    for _ in 0..4 {\n                        std::hint::spin_loop();\n                    }\n'), 2)],
 'relaxed-rmw': [(AC, 'fetch_update(Ordering::AcqRel, Ordering::Acquire', 'fetch_update(Ordering::Release, Ordering::Relaxed')],
 'early-completed-check': [(IT, '''        let begin_idx = self.counter().fetch_and_add(number_to_fetch);

        loop {''', '''        if self.completed.load(atomic::Ordering::Acquire) {
            return None;
        }
        let begin_idx = self.counter().fetch_and_add(number_to_fetch);

        loop {''')],
}
SR = '/tmp/refrun'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


if __name__ == '__main__':
    args = sys.argv[1:]
    props = None
    test = '-t' in args
    args = [a for a in args if a != '-t']
    if '-p' in args:
        i = args.index('-p')
        props = args[i + 1].split(',')
        args = args[:i] + args[i + 2:]
    if not os.path.isdir(SR):
        sh('git clone -q /repo ' + SR)
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD; cp /repo/Cargo.lock %s/' % (SR, SR, SR))
    claimed = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    for name in args or R:
        sh('git -C %s checkout -q -- .' % SR)
        ok = True
        for f, a, b, *cnt in R[name]:
            p = SR + '/' + f
            s = open(p).read()
            want = cnt[0] if cnt else 1
            if want is not None and s.count(a) != want or not s.count(a):
                print(name, 'EDIT DOES NOT APPLY', f, s.count(a)); ok = False; break
            open(p, 'w').write(s.replace(a, b))
        if not ok:
            continue
        r = sh('cd %s && cargo build --offline -q 2>&1 | grep -E "^error" -A6 | head -20' % SR)
        if r.stdout.strip():
            print(name, 'DOES NOT BUILD', r.stdout); continue
        if test:
            r = sh('cd %s && cargo nextest run --offline --no-fail-fast 2>&1 | tail -3' % SR)
            print(name, 'TESTS', r.stdout.strip()[-200:], flush=True)
            continue
        for p in props or claimed:
            t = time.time()
            try:
                r = sh('/verif/check.sh %s quick' % p, env=dict(os.environ, CI_DEV_REPO=SR, VERIF_SEED='1'), timeout=900)
                x = r.stdout.strip().splitlines()
                print('%-20s %s rc=%d %5.1fs %s' % (name, p, r.returncode, time.time() - t, '' if r.returncode == 0 else ('\n'.join(x[-3:])[:500] + r.stderr[-300:])), flush=True)
            except subprocess.TimeoutExpired:
                print('%-20s %s TIMEOUT' % (name, p), flush=True)
                sh('pkill -f engine/main.py')
    sh('git -C %s checkout -q -- .' % SR)

S = 'src/storage/mod.rs'
U = 'src/storage/utils.rs'
PRE = '''
#![allow(unused)]
use super::*;

fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
// the buffers of a list, None if its links do not agree
fn seq(head: &BufferListHead, buffers: &[Buffer]) -> Option<Vec<u32>> {
    let (mut v, mut at, mut last) = (vec![], head.head, NIL_BUFFER_INDEX);
    while at != NIL_BUFFER_INDEX {
        if v.len() > buffers.len() || buffers.get(at as usize)?.link.prev != last {
            return None;
        }
        v.push(at);
        last = at;
        at = buffers[at as usize].link.next;
    }
    if head.tail == last { Some(v) } else { None }
}
'''


def seed(id, reps, needs, breaks, body, file=S):
    return dict(id=id, property=id[:3].upper(), file=file, reps=reps, needs=needs, breaks=breaks, mod=S, demo=PRE + '#[test]\nfn holds() {\n' + body.strip('\n') + '\n}\n')


PARAMS = '''
    for blocks in [1u64, 2, 3, 255, 1 << 20, (1 << 32) - 1, 1 << 32] {
        let p = VolumeParameters::new_with_defaults(blocks * 4096);
        assert_eq!((p.volume_size, p.log_block_size), (blocks * 4096, 12));
    }
    for size in [0u64, 1, 512, 2048, 4095, 4097, 4096 * 3 + 2048, ((1u64 << 32) + 1) * 4096] {
        assert!(panics(|| VolumeParameters::new_with_defaults(size)));
    }
'''
LISTS = '''
    for n in 0..5u32 {
        let mut head = BufferListHead::default();
        let mut buffers: Vec<Buffer> = (0..7).map(|_| Buffer::new()).collect();
        for i in 0..n {
            head.list_push_back(&mut buffers, i);
            assert_eq!(seq(&head, &buffers), Some((0..=i).collect()));
        }
        head.list_push_front(&mut buffers, 6);
        let mut model: Vec<u32> = std::iter::once(6).chain(0..n).collect();
        assert_eq!(seq(&head, &buffers), Some(model.clone()));
        for i in [n / 2, 6, n] {
            if let Some(p) = model.iter().position(|x| *x == i) {
                model.remove(p);
                head.list_remove(&mut buffers, i);
                assert_eq!(seq(&head, &buffers), Some(model.clone()));
                assert!(buffers[i as usize].link.next == NIL_BUFFER_INDEX && buffers[i as usize].link.prev == NIL_BUFFER_INDEX);
            }
        }
        while let Some(i) = model.pop() {
            head.list_remove(&mut buffers, i);
            assert_eq!(seq(&head, &buffers), Some(model.clone()));
        }
    }
'''

POOLED = '''
    use async_std::task::block_on;
    // a future polled once
    fn once<F: std::future::Future>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
        let waker = futures_waker();
        match f.poll(&mut std::task::Context::from_waker(&waker)) {
            std::task::Poll::Ready(v) => Some(v),
            std::task::Poll::Pending => None,
        }
    }
    fn futures_waker() -> std::task::Waker {
        struct No;
        impl std::task::Wake for No {
            fn wake(self: std::sync::Arc<Self>) {}
        }
        std::sync::Arc::new(No).into()
    }
    fn at(n: u64) -> Location {
        Location::new(VolumeIndex(1), n * 4096)
    }
    fn in_list(pool: &BufferPool, which: fn(&BufferPoolMapping) -> &BufferListHead) -> Vec<u32> {
        let m = block_on(pool.mapping.lock());
        seq(which(&m), &m.buffers).expect("a broken list")
    }
    let dirty = |pool: &BufferPool| in_list(pool, |m| &m.dirty_buffers);
    let used = |pool: &BufferPool| in_list(pool, |m| &m.in_use_buffers);
    let available = |pool: &BufferPool| in_list(pool, |m| &m.available_buffers);
'''

SEEDS = [
 seed('c25-top-volumes', [('let index = (self.0 >> LOCATION_SHIFT_BITS) as VolumeIndexRepresentation;', 'let index = (self.0 as i64 >> LOCATION_SHIFT_BITS).max(0) as VolumeIndexRepresentation;')],
      'a location on one of the volumes 128 to 255', 'the location is attributed to volume 0', '''
    for i in 0..=255u8 {
        for o in [0u64, 1, 4096, 1 << 40, (1 << 56) - 1] {
            let l = Location::new(VolumeIndex(i), o);
            assert_eq!((l.index().0, l.offset()), (i, o));
        }
    }
'''),
 seed('c25-big-files', [('(file_size + block_size - 1) / block_size', '((file_size + block_size - 1) as u32 / block_size as u32) as u64')],
      'a file of 4 GiB or more', 'the number of its blocks is too small', '''
    for k in [9u32, 12, 18] {
        for n in [0u64, 1, 2, 1000, 1 << 23, 1 << 25] {
            assert_eq!(utils::calc_file_blocks(n << k, 1 << k), n);
            assert_eq!(utils::calc_file_blocks((n << k) + 1, 1 << k), n + 1);
        }
    }
''', U),
 seed('c25-long-values', [('pub (crate) fn align_u64(value: u64, alignment: u64) -> u64 {\n    (value + alignment - 1) & !(alignment - 1)', 'pub (crate) fn align_u64(value: u64, alignment: u64) -> u64 {\n    (value + alignment - 1) & !(alignment as u32 - 1) as u64')],
      'rounding a size of 2^32 or more', 'its upper half is lost', '''
    for k in 0..20u32 {
        for v in [0u64, 1, 7, 8, 9, 15, 16, 17, 4095, 4096, 4097, 1 << 40, (1 << 40) + 1] {
            assert_eq!(utils::align_u64(v, 1 << k), (v + (1 << k) - 1) >> k << k);
        }
    }
''', U),
 seed('c25-size-limit', [('assert!(volume_size / block_size <= (u32::MAX as u64) + 1);', 'assert!((volume_size / block_size) as u32 <= u32::MAX);')],
      'a volume of more than 2^32 blocks', 'it is accepted although its block numbers do not fit', PARAMS),
 seed('c25-part-block', [('volume_size % block_size == 0 &&', 'volume_size % MIN_VOLUME_BLOCK_SIZE as u64 == 0 &&')],
      'a volume size that is a multiple of 512 but not of 4096', 'it is accepted', PARAMS),
 seed('c25-wide-offset', [('const LOCATION_OFFSET_MASK: u64 = (1u64 << LOCATION_SHIFT_BITS) - 1;', 'const LOCATION_OFFSET_MASK: u64 = (1u64 << (LOCATION_SHIFT_BITS - 1)) - 1;')],
      'an offset of 2^55 or more', 'it is refused', '''
    for o in [0u64, 1 << 54, 1 << 55, (1 << 56) - 1] {
        assert!(!panics(|| Location::new(VolumeIndex(3), o)));
        assert_eq!(Location::new(VolumeIndex(3), o).offset(), o);
    }
    assert!(panics(|| Location::new(VolumeIndex(3), 1 << 56)));
'''),

 seed('c26-push-back', [('buffers[index as usize].link.prev = self.tail;\n            buffers[self.tail as usize].link.next = index;\n            self.tail = index;', 'self.tail = index;\n            buffers[index as usize].link.prev = self.tail;\n            buffers[self.tail as usize].link.next = index;')],
      'a buffer put behind a list that is not empty', 'it is linked to itself and the list is cut', LISTS),
 seed('c26-remove-tail', [('        } else {\n            self.tail = prev;\n        }', '        } else if prev == NIL_BUFFER_INDEX {\n            self.tail = prev;\n        }')],
      'removing the last of several buffers from a list', 'the list still ends with the removed buffer', LISTS),
 seed('c26-stale-link', [('            self.head = next;\n        }\n\n        buffers[index as usize].link.next = NIL_BUFFER_INDEX;', '            self.head = next;\n        }\n\n        if prev != NIL_BUFFER_INDEX {\n            buffers[index as usize].link.next = NIL_BUFFER_INDEX;\n        }')],
      'removing the first of several buffers from a list', 'the buffer keeps its link and cannot be put in another list', LISTS),
 seed('c26-large-pool', [('let page_base = base.add(self.buffer_size * buffer_index);\n        unsafe { std::slice::from_raw_parts(page_base', 'let page_base = base.add((self.buffer_size as u32).wrapping_mul(buffer_index as u32) as usize);\n        unsafe { std::slice::from_raw_parts(page_base')],
      'reading a buffer behind the first 4 GiB of a pool', 'the bytes of another buffer are read', '''
    let pool = BufferPool::new(1 << 20, 4100).unwrap();
    for i in [0usize, 1, 4095, 4096, 4099] {
        unsafe {
            let (r, w) = (pool.readable_slice(i), pool.writable_slice(i));
            assert_eq!((r.as_ptr() as usize, r.len()), (pool.memory.as_ptr() as usize + (i << 20), 1 << 20));
            assert_eq!((w.as_ptr() as usize, w.len()), (pool.memory.as_ptr() as usize + (i << 20), 1 << 20));
        }
    }
'''),
 seed('c26-tail', [('tail: (num_buffers - 1) as BufferIndex', 'tail: (num_buffers - 1) as u16 as BufferIndex')],
      'a pool of more than 65536 buffers', 'its list of available buffers ends in the middle', '''
    for n in [1usize, 2, 255, 70000] {
        let pool = BufferPool::new(1, n).unwrap();
        let m = pool.mapping.try_lock().unwrap();
        assert_eq!(seq(&m.available_buffers, &m.buffers), Some((0..n as u32).collect()));
    }
'''),
    seed('c29-many-handles', [('access.num_handles = num_handles + 1;', 'access.num_handles = (num_handles + 1).min(256);')],
         'more than 256 handles of one location at a time', 'the buffer is given up while handles are left', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        pool.access_initialize(at(1)).await.release().await;
        let mut hs = vec![];
        for _ in 0..300 {
            hs.push(pool.access_read_only(at(1)).await);
        }
        while let Some(mut h) = hs.pop() {
            assert_eq!(used(&pool).len(), 1);
            h.release().await;
        }
        assert_eq!((used(&pool).len(), dirty(&pool).len()), (0, 1));
    });
'''),
    seed('c29-dirty-last', [('            buffer.dirty = true;\n\n', ''), ('            buffer.access.take().unwrap()\n        };\n\n        {\n            let read_write_locks', '            buffer.dirty = true;\n            buffer.access.take().unwrap()\n        };\n\n        {\n            let read_write_locks')],
         'a reader that waits while the writer releases, and releases last', 'the written contents count as clean', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        let mut w = pool.access_initialize(at(1)).await;
        w.buffer_mut()[7] = 9;
        let mut reading = Box::pin(pool.access_read_only(at(1)));
        assert!(once(reading.as_mut()).is_none());
        w.release().await;
        let mut r = reading.await;
        assert_eq!(r.buffer_ref()[7], 9);
        r.release().await;
    });
    assert_eq!((dirty(&pool).len(), available(&pool).len()), (1, 1));
'''),
    seed('c29-look-once', [('        loop {\n            let internal = &mut *guard;\n\n            // determine if the location has already been mapped\n            match internal.mapped_locations.get(&location) {', '        let mapped = guard.mapped_locations.get(&location).copied();\n\n        loop {\n            let internal = &mut *guard;\n\n            // determine if the location has already been mapped\n            match mapped.as_ref() {')],
         'two accesses to one location that both wait for a buffer', 'one location gets two buffers', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        let (a, _, ga) = pool.buffer_access(at(1)).await;
        let (b, _, gb) = pool.buffer_access(at(2)).await;
        drop((ga, gb));
        let mut one = Box::pin(pool.buffer_access(at(3)));
        let mut two = Box::pin(pool.buffer_access(at(3)));
        assert!(once(one.as_mut()).is_none() && once(two.as_mut()).is_none());
        pool.release_read_only(a).await;
        pool.release_read_only(b).await;
        let x = one.await;
        let y = two.await;
        assert_eq!((x.0, y.2.is_none()), (y.0, true));
    });
'''),
    seed('c29-wake-once', [('            if !buffer.dirty {\n                self.buffer_available.notify_one();', '            if !buffer.dirty {\n                if internal.available_buffers.tail == NIL_BUFFER_INDEX {\n                    self.buffer_available.notify_one();\n                }')],
         'two accesses that wait, and two releases before either goes on', 'the second access waits although a buffer is available', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        let (a, _, ga) = pool.buffer_access(at(1)).await;
        let (b, _, gb) = pool.buffer_access(at(2)).await;
        drop((ga, gb));
        let mut one = Box::pin(pool.buffer_access(at(3)));
        let mut two = Box::pin(pool.buffer_access(at(4)));
        assert!(once(one.as_mut()).is_none() && once(two.as_mut()).is_none());
        pool.release_read_only(a).await;
        pool.release_read_only(b).await;
        let both = async_std::future::timeout(std::time::Duration::from_secs(5), async {
            let x = one.await;
            let y = two.await;
            (x.0, y.0)
        }).await;
        assert!(both.is_ok());
    });
'''),
    seed('c29-write-as-read', [('self.pool.release_read_write(self.buffer_index).await;', 'self.pool.release_read_only(self.buffer_index).await;')],
         'a buffer that was written through a handle and is needed for another location', 'what was written is thrown away', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        let mut h = pool.access_initialize(at(1)).await;
        h.buffer_mut()[0] = 1;
        h.release().await;
    });
    assert_eq!((dirty(&pool).len(), available(&pool).len()), (1, 1));
'''),
    seed('c29-low-offset', [('#[derive(Debug, Copy, Clone, Ord, Eq, PartialEq, PartialOrd)]\nstruct Location(LocationRepresentation);', '#[derive(Debug, Copy, Clone, Eq, PartialEq)]\nstruct Location(LocationRepresentation);\n\nimpl PartialOrd for Location {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for Location {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.offset().cmp(&other.offset())\n    }\n}')],
         'the same offset in two volumes', 'two volumes share a buffer', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        let mut a = pool.access_initialize(Location::new(VolumeIndex(1), 4096)).await;
        a.buffer_mut()[0] = 1;
        a.release().await;
        let mut b = pool.access_initialize(Location::new(VolumeIndex(2), 4096)).await;
        assert_eq!((b.buffer_ref()[0], a.buffer_index == b.buffer_index), (0, false));
        b.release().await;
    });
'''),
    seed('c29-large-clear', [('                page_data.fill(0);', '                let end = page_data.len().min(DEFAULT_VOLUME_BLOCK_SIZE);\n                page_data[..end].fill(0);')],
         'buffers of more than 4096 bytes, and one that held another location', 'the end of a new block shows what another block held', POOLED + '''
    for size in [512, 4096, 65536] {
        let pool = BufferPool::new(size, 1).unwrap();
        block_on(async {
            unsafe { pool.writable_slice(0).fill(7) };
            let mut h = pool.access_initialize(at(2)).await;
            assert!(h.buffer_ref().iter().all(|b| *b == 0));
            h.release().await;
        });
    }
'''),
    seed('c29-submitted', [('            if !buffer.submitted {\n                // while', '            if !buffer.submitted || access_was_dirty {\n                // while'), ('            buffer.dirty = true;\n\n', '            let access_was_dirty = !buffer.submitted && std::mem::replace(&mut buffer.dirty, true);\n            buffer.submitted = access_was_dirty;\n\n')],
         'a buffer written twice before it is written back', 'the buffer counts as submitted although no one submitted it', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        for _ in 0..2 {
            let mut h = pool.access_initialize(at(1)).await;
            h.release().await;
        }
    });
    let m = block_on(pool.mapping.lock());
    assert!(m.buffers.iter().all(|b| !b.submitted));
'''),
    seed('c29-other-queue', [('guard = self.buffer_available.wait(guard).await;', 'guard = if internal.dirty_buffers.tail == NIL_BUFFER_INDEX {\n                            self.buffer_available.wait(guard).await\n                        } else {\n                            // a dirty buffer becomes available soonest\n                            self.buffer_dirty.wait(guard).await\n                        };')],
         'an access that finds dirty buffers only, then a clean one is released', 'the access waits although a buffer is available', POOLED + '''
    let pool = BufferPool::new(512, 2).unwrap();
    block_on(async {
        pool.access_initialize(at(1)).await.release().await;
        let (b, _, g) = pool.buffer_access(at(2)).await;
        drop(g);
        let mut one = Box::pin(pool.buffer_access(at(3)));
        assert!(once(one.as_mut()).is_none());
        pool.release_read_only(b).await;
        assert!(async_std::future::timeout(std::time::Duration::from_secs(5), one).await.is_ok());
    });
'''),
]

from plant import *
bug('p07-score-fast-path','P07','a score change that makes a member equal in score to its predecessor, with the member name sorting before the predecessor',
 'updateScore keeps the node in place when the new score equals the neighbour\'s, so members with equal scores are no longer ordered by name; rank and lookup then miss elements',
 [('datastruct/sorted_set.go','(x.backward == nil || x.backward.score < newScore) &&\n\t\t(x.levels[0].forward == nil || x.levels[0].forward.score > newScore)','(x.backward == nil || x.backward.score <= newScore) &&\n\t\t(x.levels[0].forward == nil || x.levels[0].forward.score >= newScore)')],
 body('''
c('ZADD', 'z', '1', 'b', '2', 'a')
c('ZADD', 'z', '1', 'a')
check(c('ZRANGE', 'z', '0', '-1'), ['a', 'b'], 'order of equal scores')
check(c('ZREM', 'z', 'a'), 1, 'zrem')
check(c('ZRANGE', 'z', '0', '-1'), ['b'], 'after zrem')
'''))
bug('p07-delete-span','P07','removal of a member that is lower than the tallest node of the list, then a lookup by rank across a tall node',
 'deleteNode stops at the height of the deleted node, so the spans of the links that pass over it stay one too large: ranks and ranges are off',
 [('datastruct/sorted_set.go','func (zsl *zSkipList) deleteNode(node *zSkipListNode, update []*zSkipListNode) {\n\tfor i := 0; i < zsl.level; i++ {','func (zsl *zSkipList) deleteNode(node *zSkipListNode, update []*zSkipListNode) {\n\t// only the levels of node have to be relinked\n\tfor i := 0; i < len(node.levels); i++ {')],
 body('''
n = 200
for i in range(n):
    c('ZADD', 'z', str(i), 'm%03d' % i)
gone = list(range(0, n, 3))
for i in gone:
    c('ZREM', 'z', 'm%03d' % i)
rest = [i for i in range(n) if i % 3]
for r, i in enumerate(rest):
    check(c('ZRANK', 'z', 'm%03d' % i), r, 'rank of m%03d' % i)
    check(c('ZRANGE', 'z', r, r), ['m%03d' % i], 'element %d' % r)
'''))
bug('p04-linsert-before-prev','P04','LINSERT BEFORE an inner element, then an access that walks from the tail past it',
 'the inserted node has no link to its predecessor: walking from the tail (RPOP, negative LREM, LINDEX near the tail) loses the front of the list',
 [('datastruct/list.go','''	if prev == nil {
		l.head = newNode
	} else {
		newNode.prev = prev
		prev.next = newNode
	}
''','''	if prev == nil {
		l.head = newNode
		return true
	}

	prev.next = newNode
''')],
 body('''
c('RPUSH', 'l', 'a', 'b', 'c')
check(c('LINSERT', 'l', 'BEFORE', 'b', 'x'), 4, 'linsert')
check(c('LRANGE', 'l', '0', '-1'), ['a', 'x', 'b', 'c'], 'lrange')
got = []
for _ in range(4):
    r = c('RPOP', 'l')
    got += r if isinstance(r, list) else [r]
check(got, ['c', 'b', 'x', 'a'], 'pops from the tail')
'''))
bug('p04-lrem-tail-pointer','P04','LREM with a positive count that stops with exactly one element left behind the removed one',
 'the tail of the list is set to a node that is not the last one (or not in the list at all), later pushes at the tail are lost',
 [('datastruct/list.go','''	// remove last element
	if prev.next == nil {
		l.tail = prev
	}
''','''	// removed up to the last element
	if next == nil {
		l.tail = prev
	}
''')],
 body('''
c('RPUSH', 'l', 'a', 'b', 'c')
check(c('LREM', 'l', '1', 'b'), 1, 'lrem')
c('RPUSH', 'l', 'd')
check(c('LRANGE', 'l', '0', '-1'), ['a', 'c', 'd'], 'lrange')
'''))
bug('p05-spop-two-sites','P05','SPOP (the last element it takes)',
 'two edits that are each fine alone: sPop stops the iteration together with its last element, RangeAndDelete does not delete the element with which the iteration stops; SPOP returns a member that stays in the set',
 [('datastruct/set.go','''		result = append(result, key)
		cnt--
		s.length--
		return true, true
''','''		result = append(result, key)
		cnt--
		s.length--
		// no need to visit more elements
		return true, cnt > 0
'''),('lib/shard_map/shard_map.go','''			del, rng := f(s, v)
			if del {
				delete(shard.items, s)
			}

			if !rng {
				return
			}
''','''			del, rng := f(s, v)
			if !rng {
				return
			}

			if del {
				delete(shard.items, s)
			}
''')],
 body('''
members = ['m%d' % i for i in range(20)]
c('SADD', 's', *members)
got = []
for _ in range(3):
    got += c('SPOP', 's', '2')
rest = c('SMEMBERS', 's')
check(sorted(got + rest), sorted(members), 'popped and remaining members')
check(c('SCARD', 's'), len(rest), 'scard')
'''))
bug('p05-union-alias','P05','a set operation whose first key is a plain set, then a look at that set',
 'sUnion collects into its first argument instead of a new set: stored results share data with their sources and SUNION changes its first key',
 [('datastruct/set.go','''	var result = newSet()
	for _, s := range sets {
		s.m.Range''','''	var result = sets[0]
	for _, s := range sets[1:] {
		s.m.Range''')],
 body('''
c('SADD', 'a', 'x'); c('SADD', 'b', 'y')
c('SUNION', 'a', 'b')
check(c('SMEMBERS', 'a'), ['x'], 'source after SUNION')
c('SDIFFSTORE', 'd', 'a', 'nokey')
c('SADD', 'd', 'z')
check(c('SMEMBERS', 'a'), ['x'], 'source after a change of the stored result')
'''))
bug('p06-hvals-float','P06','a hash value that is a float in exponent notation (1e+21, 1e-07), read by HVALS',
 'HVALS formats floats without exponent, so it does not return the bytes the client stored and disagrees with HGET',
 [('datastruct/hash_table.go','''		case float64:
			vStr = strconv.FormatFloat(v, 'g', -1, 64)
''','''		case float64:
			vStr = strconv.FormatFloat(v, 'f', -1, 64)
''')],
 body('''
c('HSET', 'h', 'f', '1e+21')
check(c('HGET', 'h', 'f'), '1e+21', 'hget')
check(c('HVALS', 'h'), ['1e+21'], 'hvals')
'''))
bug('p11-upsert-abort','P11','HINCRBY or HINCRBYFLOAT on a field whose value is not a number of that kind',
 'Upsert stores the result before it looks at abort: the refused increment replaces the value of the field by an error object',
 [('lib/shard_map/shard_map.go','''	res, abort = f(ok, old, value)
	if abort {
		return
	}
	shard.items[key] = res
	return
''','''	res, abort = f(ok, old, value)
	shard.items[key] = res
	return
''')],
 body('''
c('HSET', 'h', 'f', 'text')
r = c('HINCRBY', 'h', 'f', '1')
check(isinstance(r, Err), True, 'error reply')
check(c('HGET', 'h', 'f'), 'text', 'value after a refused HINCRBY')
'''))
bug('p02-empty-bulk','P02','an empty string as value, element, member or field',
 'an empty bulk string is encoded as nil',
 [('protocol/encode.go','''		if ri.Value == nil {
''','''		if ri.Value == nil || ri.Value == "" {
''')],
 body('''
c('SET', 'k', '')
check(c('GET', 'k'), '', 'empty value')
c('RPUSH', 'l', '', 'x')
check(c('LRANGE', 'l', '0', '-1'), ['', 'x'], 'empty element')
'''))
bug('p03-incr-base','P03','a stored value like 010 or 0x1f',
 'INCR reads the stored value with base prefix detection: 010 counts as 8 and 0x1f as 31',
 [('datastruct/string.go','strconv.ParseInt(info.Value.(string), 10, 64)','strconv.ParseInt(info.Value.(string), 0, 64)')],
 body('''
c('SET', 'k', '0x1f')
r = c('INCR', 'k')
check(isinstance(r, Err), True, 'INCR of 0x1f is refused')
check(c('GET', 'k'), '0x1f', 'value after a refused INCR')
c('SET', 'o', '1_000')
check(isinstance(c('INCR', 'o'), Err), True, 'INCR of 1_000 is refused')
'''))
bug('p09-two-workers','P09','two connections whose commands are executed at the same time',
 'two workers execute commands concurrently on the unlocked key space: increments get lost, readers see half of an MSET, or the process dies from concurrent map access',
 [('event/event_pool.go','ep.startWorker(1)','ep.startWorker(2)')],
 '''from godis import *
import threading
with Tmp() as d:
    with Server(build(d)) as s:
        bad = []
        def load(i):
            try:
                c = s.client()
                for _ in range(60):
                    for _ in range(200):
                        c.send('INCR', 'n')
                    for _ in range(200):
                        r = c.recv()
                        if isinstance(r, Err): bad.append(r)
            except Exception as e:
                bad.append(repr(e))
        t = [threading.Thread(target=load, args=(i,)) for i in range(8)]
        [x.start() for x in t]; [x.join() for x in t]
        check(bad, [], 'errors')
        check(s.client()('GET', 'n'), str(8 * 60 * 200), 'counter')
''')

F='coalesce/coalesce.go'
def r(a,b): return [(F,a,b)]
M=[
('c11_bug_append_front','C11','bug',r("q.queue = append(q.queue, i)","q.queue = append([]interface{}{i}, q.queue...)")),
('c11_bug_count','C11','bug',r("q.coalesced[i]++","q.coalesced[i] = 1")),
('c11_bug_len','C11','bug',r("""			if q.Len() == 0 {
				return nil, 0, errClosedQueue
			}""","""			return nil, 0, errClosedQueue""")),
('c11_bug_forget','C11','bug',r("	delete(q.coalesced, i)\n","	if coalesced > 0 {\n		delete(q.coalesced, i)\n	}\n")),
('c11_bug_wakecond','C11','bug',r("	if ok {\n		select","	if ok && q.Len() == 1 {\n		select")),
('c11_bug_buf','C11','bug',r("make(chan struct{}, 1)","make(chan struct{})")),
('c11_bug_reset','C11','bug',r("	if len(q.queue) == 0 {\n		q.queue = nil","	if len(q.queue) <= 1 {\n		q.queue = q.queue[:len(q.queue):len(q.queue)]")),
('c11_bug_resetmap','C11','bug',r("		q.queue = nil\n		q.coalesced","		q.queue = nil\n	}\n	if len(q.queue) < 2 {\n		q.coalesced")),
('c11_bug_closed_outside','C11','bug',r("""	defer q.Unlock()
	q.Lock()

	// The closed""","""	// The closed""")+[(F,"""	default:
	}

	if _, ok""","""	default:
	}
	defer q.Unlock()
	q.Lock()

	if _, ok""")]),
('c11_bug_closeclears','C11','bug',r("		close(q.closed)","		close(q.closed)\n		q.queue = nil")),
('c11_bug_noctx','C11','bug',r("		case <-ctx.Done():\n			return nil, 0, ctx.Err()\n","")),
('c11_bug_noclosedarm','C11','bug',r("""		case <-q.inserted:
		case <-q.closed:""","""		case <-q.inserted:
			if !q.IsClosed() {
				continue
			}""")),
('c11_bug_len_first','C11','bug',r("""		select {
		case <-ctx.Done():
			return nil, 0, ctx.Err()""","""		n := q.Len()
		select {
		case <-ctx.Done():
			return nil, 0, ctx.Err()""")+[(F,"if q.Len() == 0 {\n				return","if n == 0 {\n				return")]),
('c11_ok_inline','C11','ok',r("""	ok, err := q.insert(i)

	if ok {
		select {
		case q.inserted <- struct{}{}:
		default:
		}
	}

	return ok, err
}

func (q *Queue) insert(i interface{}) (bool, error) {
	defer q.Unlock()
	q.Lock()
""","""	q.Lock()
	defer q.Unlock()
""")+[(F,"""	q.queue = append(q.queue, i)
	q.coalesced[i] = 0
	return true, nil""","""	q.coalesced[i] = 0
	q.queue = append(q.queue, i)
	q.signal()
	return true, nil
}

func (q *Queue) signal() {
	select {
	case q.inserted <- struct{}{}:
	default:
	}""")]),
('c11_ok_isclosed','C11','ok',r("""	select {
	case <-q.closed:
		return false, errClosedQueue
	default:
	}

	if _, ok := q.coalesced[i]; ok {
		q.coalesced[i]++
		return false, nil
	}""","""	if q.IsClosed() {
		return false, errClosedQueue
	}
	n, pending := q.coalesced[i]
	if pending {
		q.coalesced[i] = n + 1
		return false, nil
	}""")),
('c11_ok_next','C11','ok',r("""	i := q.queue[0]
	// Remove reference from underlying array to allow garbage collection.
	q.queue[0] = nil
	q.queue = q.queue[1:]
	coalesced := q.coalesced[i]
	delete(q.coalesced, i)
	if len(q.queue) == 0 {
		q.queue = nil
		q.coalesced = make(map[interface{}]uint32)
	}
	return i, coalesced, true""","""	head, rest := q.queue[0], q.queue[1:]
	dups := q.coalesced[head]
	q.queue[0] = nil
	delete(q.coalesced, head)
	q.queue = rest
	if len(rest) > 0 {
		return head, dups, true
	}
	q.queue, q.coalesced = nil, map[interface{}]uint32{}
	return head, dups, true""")),
('c11_ok_loop','C11','ok',r("""		i, coalesced, valid := q.next()
		if valid {
			return i, coalesced, nil
		}
""","""		if i, coalesced, valid := q.next(); valid {
			return i, coalesced, nil
		}
		done := ctx.Done()
""")+[(F,"case <-ctx.Done():","case <-done:"),(F,"""			if q.Len() == 0 {
				return nil, 0, errClosedQueue
			}""","""			if q.Len() > 0 {
				continue
			}
			return nil, 0, errClosedQueue""")]),
('c11_ok_close','C11','ok',r("""	select {
	case <-q.closed:
		return
	default:
		close(q.closed)
	}""","""	if !q.IsClosed() {
		close(q.closed)
	}""")),
]

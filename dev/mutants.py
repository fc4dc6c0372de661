L='pkg/log/log.go'; E='pkg/db/engine.go'
m('C02 skip empty', 'C02', [(L, 'for _, item := range objects[1:] {', 'for _, item := range objects[1:] {\n if item.IsNull() { continue }')] if False else [(L, 'for _, item := range objects[1:] {', 'for _, item := range objects[1:] {\n if item.String() == "" { continue }')])
m('C02 all but last', 'C02', [(L, 'range objects[1:]', 'range objects[1:len(objects)-1]')])
m('C02 from 2', 'C02', [(L, 'range objects[1:]', 'range objects[2:]')])
m('C02 from 0', 'C02', [(L, 'range objects[1:]', 'range objects')])
m('C02 raw', 'C02', [(L, 'strconv.Quote(item.String())', 'item.String()'),(L,'"strconv"\n','"strconv"\n')])
m('C02 step', 'C02', [(L, 'for _, item := range objects[1:] {', 'for i := 1; i < len(objects); i += 2 {\n item := objects[i]')])
m('C02 bound', 'C02', [(L, 'for _, item := range objects[1:] {', 'for i := 1; i < len(objects)-1; i++ {\n item := objects[i]')])
m('C02 fine loop', 'C02', [(L, 'for _, item := range objects[1:] {', 'for i := 1; i < len(objects); i++ {\n item := objects[i]')], False)
m('C02 index', 'C02', [(L, 'vl.Index = int32(index)', 'vl.Index = int32(index) + 1')])
m('C02 index0', 'C02', [(E, 'e.writeLog(name, 1, objects)', 'e.writeLog(name, 0, objects)')])
m('C02 name', 'C02', [(E, 'e.writeLog(name, 1, objects)', 'e.writeLog(strings.ToUpper(name), 1, objects)')])
m('C02 noargs', 'C02', [(L, 'vl.Arguments = arguments', 'if len(arguments) < 8 { vl.Arguments = arguments }')])
m('C02 lossy', 'C02', [(L, 'strconv.Quote(item.String())', 'strconv.Quote(fmt.Sprint(item))')])
m('C02 twice', 'C02', [(L, '		arguments = append(arguments, strconv.Quote(item.String()))', '		arguments = append(arguments, strconv.Quote(item.String()))\n if item.String()=="x" {arguments = append(arguments, strconv.Quote(item.String()))}')])
m('C02 fine index assign', 'C02', [(L, '	var arguments []string', '	arguments := make([]string, len(objects)-1)'),(L, 'for _, item := range objects[1:] {','for i, item := range objects[1:] {'),(L,'arguments = append(arguments, strconv.Quote(item.String()))','arguments[i] = strconv.Quote(item.String())')], False)
m('C02 fine helper', 'C02', [(L, 'arguments = append(arguments, strconv.Quote(item.String()))','arguments = append(arguments, enc(item))'),(L,'func FormatLog','func enc(o protocol.RedisObject) string { return strconv.Quote(o.String()) }\n\nfunc FormatLog')], False)
m('C02 fine logargs', 'C02', [(L, '	var arguments []string', '	arguments := encAll(objects[1:])\n'),(L,'''	for _, item := range objects[1:] {
		// Quoted, since a proto string cannot hold bytes that are not UTF-8
		arguments = append(arguments, strconv.Quote(item.String()))
	}
''',''),(L,'func FormatLog','func encAll(os []protocol.RedisObject) []string { var r []string\nfor _, o := range os { r = append(r, strconv.Quote(o.String())) }\nreturn r }\n\nfunc FormatLog')], False)
m('C38 index', 'C38', [(E, 'command.NewCommand(vl.Name, int(vl.Index), arguments)', 'command.NewCommand(vl.Name, 1, arguments)')])
m('C38 db', 'C38', [(E, 'db := e.getOrCreateDB(int(vl.Index))', 'db := e.getOrCreateDB(1)')])
m('C38 skiperr', 'C38', [(E, '''		obj, err := protocol.Parse(strings.NewReader(item))
		if err != nil {
			return nil, err
		}''', '''		obj, err := protocol.Parse(strings.NewReader(item))
		if err != nil {
			continue
		}''')])
m('C38 break', 'C38', [(E, '''			common.Warnf("rebuild: invalid argument, log=%s, error={%s}", log.FormatLog(vl), err)
			continue''', '''			common.Warnf("rebuild: invalid argument, log=%s, error={%s}", log.FormatLog(vl), err)
			break''')])
m('C38 execerr break', 'C38', [(E, '''			common.Warnf("rebuild: execute gives error, log=%s, error={%w}", log.FormatLog(vl), err)
			continue''', '''			common.Warnf("rebuild: execute gives error, log=%s, error={%w}", log.FormatLog(vl), err)
			return''')])
m('C38 dedupe', 'C38', [(E, '''	for _, vl := range logs {
''', '''	last := ""
	for _, vl := range logs {
		if vl.Id == last { continue }
		last = vl.Id
''')])
m('C38 from1', 'C38', [(E, 'range logs {', 'range logs[1:] {')])
m('C38 nullarg', 'C38', [(E, '		ret = append(ret, obj)', '		if item == "" { continue }\n		ret = append(ret, obj)')])
m('C38 twice', 'C38', [(E, '''		_, err = c.Result()
		if err != nil {
			common.Warnf("rebuild: execute''', '''		_, err = c.Result()
		if err != nil { db.ExecuteCommand(c) }
		if err != nil {
			common.Warnf("rebuild: execute''')])
m('C38 fine helper', 'C38', [(E, '''	for _, vl := range logs {
''', '''	for i := 0; i < len(logs); i++ {
		vl := logs[i]
''')], False)
m('C38 fine assign', 'C38', [(E, '''	var ret []protocol.RedisObject

	for _, item := range s {''', '''	ret := make([]protocol.RedisObject, len(s))

	for i, item := range s {'''),(E,'		ret = append(ret, obj)','		ret[i] = obj')], False)
D='pkg/db/db.go'; CC='pkg/container/container.go'
m('C41 swap create', 'C41', [(D,'''	case container.HashType:
		if create {''','''	case container.HashType:
		if create || len(key) > 64 {''')])
m('C41 kind', 'C41', [(D,'return d.containers.GetSet(key)','return d.containers.GetHash(key)')])
m('C41 first key', 'C41', [(D,'''	for _, key := range c.Keys() {
''','''	ks := c.Keys()
	for i, key := range ks {
		if i > 0 && ks[i-1] == key { continue }
''')])
m('C41 lower', 'C41', [(D,'d.containers.GetList(key)','d.containers.GetList(key[:len(key)])')])
m('C41 break', 'C41', [(D,'''	for _, key := range c.Keys() {
''','''	for i, key := range c.Keys() {
		if i == 16 { break }
''')])
m('C41 order', 'C41', [(D,'''	c.SetAccessObjects(accessObjects)

	c.Execute()''','''	c.Execute()
	c.SetAccessObjects(accessObjects)
''')])
m('C41 skip set', 'C41', [(D,'''	c.SetAccessObjects(accessObjects)
''','''	if len(accessObjects) > 1 { c.SetAccessObjects(accessObjects) }
''')])
m('C41 create swapped', 'C41', [(D,'''		if create {
			return d.containers.GetOrCreateSet(key)
		} else {
			return d.containers.GetSet(key)''','''		if !create {
			return d.containers.GetOrCreateSet(key)
		} else {
			return d.containers.GetSet(key)''')])
m('C41 no set', 'C41', [(D,'''	case container.SetType:
		if create {
			return d.containers.GetOrCreateSet(key)
		} else {
			return d.containers.GetSet(key)
		}
''','')])
m('C41 fine if', 'C41', [(D,'''	for _, key := range c.Keys() {
		accessObjects = append(accessObjects, d.resolveName(key, targetType, create))
	}
''','''	ks := c.Keys()
	for i := 0; i < len(ks); i++ {
		o := d.resolveName(ks[i], targetType, create)
		accessObjects = append(accessObjects, o)
	}
''')], False)
m('C41 fine make', 'C41', [(D,'''	for _, key := range c.Keys() {
		accessObjects = append(accessObjects, d.resolveName(key, targetType, create))
	}
''','''	ks := c.Keys()
	accessObjects = make([]container.ContainerObject, len(ks))
	for i := range ks {
		accessObjects[i] = d.resolveName(ks[i], targetType, create)
	}
''')], False)
m('C41 fine nested ifs', 'C41', [(D,'''	switch t {
	case container.GlobalType:
		// create do nothing here
		return d.containers.Global()
	case''','''	if t == container.GlobalType {
		return d.containers.Global()
	}
	switch t {
	case'''),(D,'''		if create {
			return d.containers.GetOrCreateList(key)
		} else {
			return d.containers.GetList(key)
		}''','''		if !create {
			return d.containers.GetList(key)
		}
		return d.containers.GetOrCreateList(key)''')], False)
m('C42 map', 'C42', [(CC,'''	s, ok := c.sets[key]

	if !ok {
		s = NewSetContainer(key)
		c.sets[key] = s''','''	s, ok := c.sets[key]

	if !ok {
		s = NewSetContainer(key)
		c.sets[s.Type2()] = s''')] if False else [(CC,'c.hashes[key] = h','if len(c.hashes) < 1<<20 { c.hashes[key] = h }')])
m('C42 empty', 'C42', [(CC,'''	l, ok := c.lists[key]

	if !ok {
		l = New''','''	l, ok := c.lists[key]

	if !ok || l.Len() == 0 {
		l = New''')])
m('C42 getempty', 'C42', [(CC,'''	s, ok := c.sets[key]

	if !ok {
		return nil
	}
''','''	s, ok := c.sets[key]

	if !ok || s.Len() == 0 {
		return nil
	}
''')])
m('C42 del', 'C42', [(CC,'''	s, ok := c.sets[key]

	if !ok {
		return nil
	}
''','''	s, ok := c.sets[key]

	if !ok {
		return nil
	}
	if s.Len() == 0 { delete(c.sets, key) }
''')])
m('C42 trim', 'C42', [(CC,'''	h, ok := c.hashes[key]

	if !ok {
		return nil''','''	if len(key) > 255 { key = key[:255] }
	h, ok := c.hashes[key]

	if !ok {
		return nil''')])
m('C42 wrong name', 'C42', [(CC,'NewSetContainer(key)','NewSetContainer("key")')])
m('C42 fine', 'C42', [(CC,'''	l, ok := c.lists[key]

	if !ok {
		return nil
	}

	return l''','''	if l, ok := c.lists[key]; ok {
		return l
	}
	return nil''')], False)
m('C42 fine2', 'C42', [(CC,'''	l, ok := c.lists[key]

	if !ok {
		l = NewLinkedListContainer(key)
		c.lists[key] = l
	}

	return l''','''	if l, ok := c.lists[key]; ok {
		return l
	}
	nl := NewLinkedListContainer(key)
	c.lists[key] = nl
	return nl''')], False)
m('C42 fine3', 'C42', [(CC,'''	l, ok := c.lists[key]

	if !ok {
		l = NewLinkedListContainer(key)
		c.lists[key] = l
	}

	return l''','''	if l := c.GetList(key); l != nil {
		return l
	}
	nl := NewLinkedListContainer(key)
	c.lists[key] = nl
	return nl''')], False)
CM='pkg/command/'
m('C06 refuse many', 'C06', [(CM+'set.go','func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {','func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {\n	if len(objects) > 1024 { return ErrArgumentInvalid }\n')])
m('C06 case', 'C06', [(CM+'command.go','name = strings.ToLower(name)','_ = strings.ToLower')])

# ---- C15, C16 ----
DC, FU, BC, TO, CO = 'pkg/concurrency/data_channel.go', 'pkg/concurrency/future.go', 'pkg/concurrency/broadcast.go', 'pkg/concurrency/topic.go', 'pkg/network/conn.go'
m('C15 load then store', 'C15', [(DC, 'if atomic.CompareAndSwapInt32(&r.closed, 0, 1) {', 'if atomic.LoadInt32(&r.closed) == 0 {\n\t\tatomic.StoreInt32(&r.closed, 1)')])
m('C15 useless cas', 'C15', [(DC, 'CompareAndSwapInt32(&r.closed, 0, 1) {', 'CompareAndSwapInt32(&r.closed, 0, 0) {')])
m('C15 helper ok', 'C15,C16', [(DC, '''	if atomic.CompareAndSwapInt32(&r.closed, 0, 1) {
		close(r.closeChannel)
	}
}''', '''	if !r.markClosed() {
		return
	}
	close(r.closeChannel)
}

func (r *receiver) markClosed() bool { return atomic.CompareAndSwapInt32(&r.closed, 0, 1) }''')], bad=False)
m('C15 flag reset', 'C15', [(CO, '		close(c.closeChan)\n', '		close(c.closeChan)\n\t\tatomic.StoreInt32(&c.closed, 0)\n')])
m('C15 cancel closes unconditionally', 'C15', [(FU, '''	if atomic.CompareAndSwapInt32(&f.settled, 0, 1) {
		close(f.cancelChan)
		return nil
	}
''', '''	select {
	case <-f.doneChan:
	default:
		close(f.cancelChan)
		return nil
	}
''')])
m('C15 stop without once', 'C15', [('pkg/network/server.go', '''func (s *server) Stop() {
	s.stop()
''', '''func (s *server) Stop() {
	s.engine.Stop()
	s.stop()
''')])
m('C15 done before send', 'C15', [(TO, '''			status := subscriber.Send(e)
''', '''			status := subscriber.Send(e)
			wg.Done()
'''), (TO, '''			}

			wg.Done()
''', '''			}

''')])
m('C15 deferred done ok', 'C15', [(TO, '''			status := subscriber.Send(e)
''', '''			defer wg.Done()
			status := subscriber.Send(e)
'''), (TO, '''			}

			wg.Done()
''', '''			}

''')], bad=False)
m('C15 close before wait', 'C15', [(TO, '	wg.Wait()\n', '	close(ch)\n\twg.Wait()\n'), (TO, '''	successChan <- successCount
	close(ch)
''', '''	successChan <- successCount
''')])
m('C16 receive ignores close', 'C16', [(DC, '''	select {
	case event := <-r.dataChannel:
		return event, nil
	case <-r.closeChannel:
		return nil, ErrChannelClosed
	}
''', '''	event := <-r.dataChannel
	return event, nil
''')])
m('C16 send deaf', 'C16', [(DC, '''	select {
	case <-s.closeChannel:
		return Closed
	case s.dataChannel <- event:''', '''	select {
	case s.dataChannel <- event:''')])
m('C16 wait misses cancel', 'C16', [(FU, '''	select {
	case <-f.doneChan:
		return nil
	case <-f.cancelChan:
		return ErrCancelled
	}
}

func (f *future) WaitFor''', '''	<-f.doneChan
	return nil
}

func (f *future) WaitFor''')])
m('C16 conn close forgets', 'C16', [(CO, '''		_ = c.tcpConn.Close()
		close(c.closeChan)
		return nil
''', '''		if err := c.tcpConn.Close(); err != nil {
			return err
		}
		close(c.closeChan)
		return nil
''')])
m('C16 touch only sends', 'C16', [(CO, '''	select {
	case c.resetChan <- 0:
		return nil
	case <-c.closeChan:
		return ErrConnIsClosed
	}
''', '''	c.resetChan <- 0
	return nil
''')])
m('C16 waitfor waits', 'C16', [(FU, '''	case <-time.After(d):
		return ErrTimeout
''', '''	case <-time.After(d):
		<-f.doneChan
		return ErrTimeout
''')])

# ---- C23: futures ----
m('C23 get without wait', 'C23', [(FU, '''	err := f.Wait()

	if err != nil {
		return nil, err
	}

	return''', '''	return''')])
m('C23 cancel always ok', 'C23', [(FU, '''	case <-f.doneChan:
		return ErrFulfilled
	case <-f.cancelChan:''', '''	case <-f.doneChan:
		return nil
	case <-f.cancelChan:''')])
m('C23 swapped errors', 'C23', [(FU, '''	case <-f.doneChan:
		return ErrFulfilled
	case <-f.cancelChan:
		return ErrCancelled
''', '''	case <-f.doneChan:
		return ErrCancelled
	case <-f.cancelChan:
		return ErrFulfilled
''')])
m('C23 close before result', 'C23', [(FU, '''		f.result, f.err = f.task.Run()
		// If already cancelled, leaves the doneChan open
		if atomic''', '''		res, err := f.task.Run()
		defer func() { f.result, f.err = res, err }()
		if atomic''')])
m('C23 timeout says done', 'C23', [(FU, '''		return ErrTimeout
''', '''		return nil
''')])
m('C23 double start', 'C23', [(FU, '''	fut.start()

	return fut''', '''	fut.start()
	fut.start()

	return fut''')])
m('C23 half timeout', 'C23', [(FU, 'time.After(d)', 'time.After(d / 2)')])
m('C23 error dropped', 'C23', [(FU, 'return f.result, f.err', 'return f.result, nil')])
m('C23 result only on success', 'C23', [(FU, '''		f.result, f.err = f.task.Run()
''', '''		res, err := f.task.Run()
		if err == nil {
			f.result = res
		}
		f.err = err
''')])
m('C23 refactor settle', 'C23', [(FU, '''		f.result, f.err = f.task.Run()
		// If already cancelled, leaves the doneChan open
		if atomic.CompareAndSwapInt32(&f.settled, 0, 1) {
			close(f.doneChan)
		}
	}()
}
''', '''		res, err := f.task.Run()
		f.settle(res, err)
	}()
}

func (f *future) settle(res interface{}, err error) {
	f.err = err
	f.result = res
	if !atomic.CompareAndSwapInt32(&f.settled, 0, 1) {
		return
	}
	close(f.doneChan)
}
''')], bad=False)
m('C23 refactor timer', 'C23', [(FU, '''	select {
	case <-f.doneChan:
		return nil
	case <-f.cancelChan:
		return ErrCancelled
	case <-time.After(d):
		return ErrTimeout
	}
''', '''	timer := time.NewTimer(d)
	defer timer.Stop()

	var err error
	select {
	case <-timer.C:
		err = ErrTimeout
	case <-f.cancelChan:
		err = ErrCancelled
	case <-f.doneChan:
	}
	return err
''')], bad=False)
m('C23 refactor get', 'C23', [(FU, '''	err := f.Wait()

	if err != nil {
		return nil, err
	}

	return f.result, f.err''', '''	if err := f.Wait(); err == nil {
		return f.result, f.err
	} else {
		return nil, err
	}''')], bad=False)
# ---- C24: distribution ----
m('C24 stop at first closed', 'C24', [(TO, '''		wg.Add(1)

		name := k.(string)
		subscriber := s.(Sender)
''', '''		name := k.(string)
		subscriber := s.(Sender)
		if name == "" {
			return false
		}
		wg.Add(1)
''')])
m('C24 expired removed', 'C24', [(TO, 'if status == Closed {', 'if status != Success {')])
m('C24 closed counted', 'C24', [(TO, '''			} else {
				atomic.AddInt32(&successCount, 1)
			}
''', '''			}
			atomic.AddInt32(&successCount, 1)
''')])
m('C24 retry expired', 'C24', [(TO, '''			status := subscriber.Send(e)
''', '''			status := subscriber.Send(e)
			if status == Expired {
				status = subscriber.Send(e)
			}
''')])
m('C24 not removed', 'C24', [(TO, '''				ch <- name
''', '''				common.Infof("%s", name)
''')])
m('C24 count early', 'C24', [(TO, '''	wg.Wait()
	successChan <- successCount
''', '''	successChan <- successCount
	wg.Wait()
''')])
m('C24 skip some', 'C24', [(TO, '''		wg.Add(1)

		name := k.(string)
		subscriber := s.(Sender)
''', '''		name := k.(string)
		subscriber := s.(Sender)
		if e == nil {
			return true
		}
		wg.Add(1)
''')])
m('C24 refactor switch', 'C24', [(TO, '''			if status == Closed {
				ch <- name
			} else if status == Expired {
				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
			} else {
				atomic.AddInt32(&successCount, 1)
			}

			wg.Done()
''', '''			defer wg.Done()
			switch status {
			case Success:
				atomic.AddInt32(&successCount, 1)
			case Expired:
				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
			case Closed:
				ch <- name
			}
''')], bad=False)
m('C24 refactor mutex list', 'C24', [(TO, '''	ch := make(chan string)
	collected := make(chan struct{})

	go func() {
		for key := range ch {
			closedKeys = append(closedKeys, key)
		}

		close(collected)
	}()
''', '''	var mu sync.Mutex
'''), (TO, '''				ch <- name
''', '''				mu.Lock()
				closedKeys = append(closedKeys, name)
				mu.Unlock()
'''), (TO, '''	close(ch)

	<-collected
''', '')], bad=False)
m('C24 refactor helper', 'C24', [(TO, '''		go func() {
			status := subscriber.Send(e)
			if status == Closed {
				ch <- name
			} else if status == Expired {
				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
			} else {
				atomic.AddInt32(&successCount, 1)
			}

			wg.Done()
		}()
''', '''		go t.deliver(name, subscriber, e, ch, &successCount, &wg)
'''), (TO, '''func (t *topic) batchRemove(''', '''func (t *topic) deliver(name string, subscriber Sender, e Event, ch chan<- string, n *int32, wg *sync.WaitGroup) {
	defer wg.Done()
	switch subscriber.Send(e) {
	case Closed:
		ch <- name
	case Expired:
		common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
	default:
		atomic.AddInt32(n, 1)
	}
}

func (t *topic) batchRemove(''')], bad=False)
# ---- C25: data channels ----
m('C25 expired says closed', 'C25', [(DC, '		return Expired\n', '		return Closed\n')])
m('C25 default expiry', 'C25', [(DC, 'time.After(s.expireTime)', 'time.After(DefaultExpireTime)')])
m('C25 success swap', 'C25', [(DC, '''	case s.dataChannel <- event:
		return Success
''', '''	case s.dataChannel <- event:
		return Closed
''')])
m('C25 size ignored', 'C25', [(DC, 'make(chan Event, size)', 'make(chan Event, 1)')])
m('C25 drain after close', 'C25', [(DC, '''	if atomic.LoadInt32(&r.closed) == 1 {
		return nil, ErrChannelClosed
	}

''', '')])
m('C25 nil error', 'C25', [(DC, '''	case <-r.closeChannel:
		return nil, ErrChannelClosed
''', '''	case <-r.closeChannel:
		return nil, nil
''')])
m('C25 no precheck', 'C25', [(DC, '''	select {
	case <-s.closeChannel:
		return Closed
	default:
	}

''', '')])
m('C25 refactor timer', 'C25', [(DC, '''	select {
	case <-s.closeChannel:
		return Closed
	case s.dataChannel <- event:
		return Success
	case <-time.After(s.expireTime):
		return Expired
	}
''', '''	timer := time.NewTimer(s.expireTime)
	defer timer.Stop()

	status := Expired
	select {
	case s.dataChannel <- event:
		status = Success
	case <-s.closeChannel:
		status = Closed
	case <-timer.C:
	}
	return status
''')], bad=False)
m('C25 refactor constructor', 'C25', [(DC, '''	var dc chan Event
	if size <= 0 {
		dc = make(chan Event)
	} else {
		dc = make(chan Event, size)
	}
	cc''', '''	if size < 0 {
		size = 0
	}
	dc := make(chan Event, size)
	cc''')], bad=False)
m('C25 refactor default via option', 'C25', [(DC, '''	dc := make(chan Event)
	cc := make(chan struct{})

	r := &receiver{
		dataChannel:  dc,
		closeChannel: cc,
		closed:       0,
	}

	s := &sender{
		dataChannel:  dc,
		closeChannel: cc,
		expireTime:   DefaultExpireTime,
	}

	return r, s
''', '''	return NewDataChannelWithOption(0, DefaultExpireTime)
''')], bad=False)
# ---- C26: data maps ----
DM = 'pkg/types/data_map.go'
m('C26 double count', 'C26', [(DM, '''	if !sdm.Has(key) {
		atomic.AddInt32(&sdm.size, 1)
	}
''', '''	atomic.AddInt32(&sdm.size, 1)
''')])
m('C26 unlocked set', 'C26', [(DM, '''func (sdm *syncDataMap) Set(key string, value interface{}) {
	sdm.mutex.Lock()
	defer sdm.mutex.Unlock()
''', '''func (sdm *syncDataMap) Set(key string, value interface{}) {
''')])
m('C26 remove uncounted', 'C26', [(DM, '		atomic.AddInt32(&sdm.size, -1)\n', '')])
m('C26 get lies', 'C26', [(DM, '''	val, ok := sdm.container[key]
	return val, ok
''', '''	val, ok := sdm.container[key]
	_ = ok
	return val, true
''')])
m('C26 set keeps old', 'C26', [(DM, '''	sdm.container[key] = value
''', '''	if _, ok := sdm.container[key]; !ok {
		sdm.container[key] = value
	}
''')])
m('C26 len plus', 'C26', [(DM, 'return len(sdm.container)', 'return len(sdm.container) + 1')])
m('C26 refactor atomics', 'C26', [(DM, '''	if !sdm.Has(key) {
		atomic.AddInt32(&sdm.size, 1)
	}

	sdm.container.Store(key, value)
''', '''	_, there := sdm.container.Load(key)
	sdm.container.Store(key, value)
	if there {
		return
	}
	atomic.AddInt32(&sdm.size, 1)
'''), (DM, '''	if sdm.Has(key) {
		sdm.container.Delete(key)
''', '''	if _, had := sdm.container.LoadAndDelete(key); had {
''')], bad=False)
m('C26 refactor has', 'C26', [(DM, '''	_, ok := sdm.container[key]
	return ok
''', '''	if _, ok := sdm.Get(key); ok {
		return true
	}
	return false
''')], bad=False)

SV = 'pkg/network/server.go'; MA = 'pkg/replication/master.go'
# ---- C17: shutdown ----
m('C17 no topic', 'C17', [(SV, '		s.eventBus.RemoveTopic("response")\n', '')])
m('C17 flush dropped', 'C17', [(E, '''	if e.file != nil {
		_ = e.file.Flush()
	}
''', '')])
m('C17 flush only with master', 'C17', [(E, '''	if e.file != nil {
		_ = e.file.Flush()
	}
''', '''	if e.master != nil && e.file != nil {
		_ = e.file.Flush()
	}
''')])
m('C17 wrong client type', 'C17', [(SV, 'c, ok := value.(Conn)\n', 'c, ok := value.(net.Conn)\n')])
m('C17 first client only', 'C17', [(SV, '''				_ = c.Close()
			}
			return true
''', '''				_ = c.Close()
			}
			return !ok
''')])
m('C17 async stop', 'C17', [(SV, '''	wg.Wait()

	s.stop()
''', '''	wg.Wait()

	go s.stop()
''')])
m('C17 listener open', 'C17', [(SV, '		_ = s.tcpListener.Close()\n', '')])
m('C17 master listener', 'C17', [(MA, '		_ = m.listener.Close()\n', '')])
m('C17 early return', 'C17', [(SV, '''		_ = s.tcpListener.Close()
''', '''		if err := s.tcpListener.Close(); err != nil {
			return
		}
''')])
m('C17 refactor defer', 'C17', [(SV, '''		s.eventBus.RemoveTopic("request")
		s.eventBus.RemoveTopic("response")

		_ = s.tcpListener.Close()
''', '''		defer common.Info("server shutdown")
		if err := s.tcpListener.Close(); err != nil {
			common.Warnf("close listener. err=%s", err)
		}
		for _, name := range []string{"a"} {
			common.Debugf("%s", name)
		}
		s.removeTopics()
'''), (SV, '''		common.Info("server shutdown")
	})
}
''', '''	})
}

func (s *server) removeTopics() {
	s.eventBus.RemoveTopic("request")
	s.eventBus.RemoveTopic("response")
}
''')], bad=False)
m('C17 refactor close clients', 'C17', [(SV, '''		s.clients.Range(func(key, value interface{}) bool {
			c, ok := value.(Conn)
			if ok {
				_ = c.Close()
			}
			return true
		})
''', '''		s.clients.Range(func(_, value interface{}) bool {
			_ = value.(Conn).Close()
			return true
		})
''')], bad=False)
m('C17 refactor engine stop', 'C17', [(E, '''	if e.master != nil {
		e.master.Stop()
	}

	if e.file != nil {
		_ = e.file.Flush()
	}

	close(e.shutChan)
''', '''	defer close(e.shutChan)

	if m := e.master; m != nil {
		m.Stop()
	}

	e.flush()
}

func (e *engine) flush() {
	if e.file == nil {
		return
	}

	if err := e.file.Flush(); err != nil {
		common.Warnf("flush. err=%s", err)
	}
''')], bad=False)
# ---- C28: routing ----
m('C28 broadcast id', 'C28', [(SV, 'dataMap.Set("id", c.ID())', 'dataMap.Set("id", c.Addr())')])
m('C28 error replies dropped', 'C28', [(SV, '''				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
					break Outer
				}
''', '''				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
					break Outer
				}
				break
''')])
m('C28 write error ends', 'C28', [(SV, '''conn.(Conn).Addr(), obj.String())
					break
''', '''conn.(Conn).Addr(), obj.String())
					break Outer
''')])
m('C28 two writes', 'C28', [(SV, '''					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())
''', '''					_ = conn.(Conn).Write(obj.String())
''')])
m('C28 shared map', 'C28', [(SV, '''	go func() {
		defer func() {
			s.clients.Delete(c.ID())
			_ = c.Close()
		}()
''', '''	go func() {
		dataMap := types.NewSimpleDataMap()
		defer func() {
			s.clients.Delete(c.ID())
			_ = c.Close()
		}()
'''), (SV, '''			dataMap := types.NewSimpleDataMap()
			dataMap.Set("id", c.ID())
''', '''			dataMap.Set("id", c.ID())
''')])
m('C28 registered late', 'C28', [(SV, '''	s.clients.Store(c.ID(), c)

	go func() {
''', '''	go func() {
'''), (SV, '''			dataMap := types.NewSimpleDataMap()
			dataMap.Set("id"''', '''			s.clients.Store(c.ID(), c)
			dataMap := types.NewSimpleDataMap()
			dataMap.Set("id"''')])
m('C28 error to all', 'C28', [(SV, 'conn, ok := s.clients.Load(id)', 'conn, ok := s.clients.Load(event.ID())')])
m('C28 null dropped', 'C28', [(SV, '''			conn, ok := s.clients.Load(id)
''', '''			if obj.String() == "" {
				break
			}
			conn, ok := s.clients.Load(id)
''')])
m('C28 text cut', 'C28', [(CO, 'c.tcpConn.Write([]byte(s))', 'c.tcpConn.Write([]byte(s)[:len(s)-1])')])
m('C28 write error hidden', 'C28', [(CO, '''	if err != nil {
		return fmt.Errorf("conn: write''', '''	if err != nil && n == 0 {
		return fmt.Errorf("conn: write''')])
m('C28 refactor deliver', 'C28', [(SV, '''			conn, ok := s.clients.Load(id)

			if ok {
				if err := conn.(Conn).Write(obj.String()); err != nil {
					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())
					break
				}
			} else {
				_ = common.Errorf("conn not exist. id=%s", id)
			}
''', '''			s.deliver(id, obj)
'''), (SV, '''func (s *server) stop() {''', '''func (s *server) deliver(id string, obj protocol.RedisObject) {
	value, ok := s.clients.Load(id)
	if !ok {
		_ = common.Errorf("conn not exist. id=%s", id)
		return
	}

	client := value.(Conn)
	text := obj.String()
	if err := client.Write(text); err != nil {
		_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", client.Addr(), text)
	}
}

func (s *server) stop() {''')], bad=False)
m('C28 refactor serve', 'C28,C36', [(SV, '''	go func() {
		defer func() {
			s.clients.Delete(c.ID())
			_ = c.Close()
		}()

		for {
			request, err := c.Read()
			if errors.Is(err, ErrConnIsClosed) {
				common.Infof("client %s is leaving", c.Addr())
				return
			} else if err != nil {
				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
				return
			}

			dataMap := types.NewSimpleDataMap()
			dataMap.Set("id", c.ID())
			dataMap.Set("request", request)

			concurrency.GetEventBus().Publish("request", dataMap, nil)
		}
	}()
}
''', '''	go s.serveConn(c)
}

func (s *server) serveConn(c Conn) {
	defer s.forget(c)

	for {
		request, err := c.Read()
		if err != nil {
			if errors.Is(err, ErrConnIsClosed) {
				common.Infof("client %s is leaving", c.Addr())
			} else {
				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
			}
			break
		}

		s.eventBus.Publish("request", requestOf(c, request), nil)
	}
}

func requestOf(c Conn, request protocol.RedisObject) types.DataMap {
	data := types.NewSimpleDataMap()
	data.Set("request", request)
	data.Set("id", c.ID())
	return data
}

func (s *server) forget(c Conn) {
	_ = c.Close()
	s.clients.Delete(c.ID())
}
''')], bad=False)
# ---- C31 ----
m('C31 any error ends', 'C31', [(SV, '''						common.Warnf("tcp listen error. err=%s", err)
						break
''', '''						common.Warnf("tcp listen error. err=%s", err)
						break Outer
''')])
m('C31 master ends', 'C31', [(MA, '''					common.Warnf("tcp listen error. err=%s", err)
					continue
''', '''					common.Warnf("tcp listen error. err=%s", err)
					break Outer
''')])
m('C31 sync serve', 'C31', [(MA, 'go m.handleConn(conn)', 'm.handleConn(conn)')])
m('C31 spin', 'C31', [(MA, '''				if strings.HasSuffix(err.Error(), "use of closed network connection") {
					break Outer
				} else {
''', '''				if strings.HasSuffix(err.Error(), "use of closed network connection") {
					continue Outer
				} else {
''')])
m('C31 drop local', 'C31', [(SV, '''				// Start handle new conn
				go s.newConn(conn)
''', '''				if conn.RemoteAddr() != nil {
					go s.newConn(conn)
				}
''')])
m('C31 refactor', 'C31', [(MA, '''				if strings.HasSuffix(err.Error(), "use of closed network connection") {
					break Outer
				} else {
					common.Warnf("tcp listen error. err=%s", err)
					continue
				}
			}
''', '''				if m.isClosed(err) {
					return
				}

				common.Warnf("tcp listen error. err=%s", err)
				continue Outer
			}
'''), (MA, '''func (m *master) stop() {''', '''func (m *master) isClosed(err error) bool {
	return strings.HasSuffix(err.Error(), "use of closed network connection")
}

func (m *master) stop() {''')], bad=False)
m('C31 refactor errors.Is', 'C31', [(MA, 'strings.HasSuffix(err.Error(), "use of closed network connection")', 'errors.Is(err, net.ErrClosed)'), (MA, '	"encoding/binary"\n', '	"encoding/binary"\n	"errors"\n'), (MA, 'import (\n', 'import (\n'), (MA, '	"strings"\n', '')], bad=False)
# ---- C36 ----
m('C36 not deleted', 'C36', [(SV, '			s.clients.Delete(c.ID())\n', '')])
m('C36 retry', 'C36', [(SV, '''				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
				return
''', '''				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
				continue
''')])
m('C36 not closed on error', 'C36', [(SV, '''		defer func() {
			s.clients.Delete(c.ID())
			_ = c.Close()
		}()
''', '''		defer s.clients.Delete(c.ID())
''')])
m('C36 delete by addr', 'C36', [(SV, 's.clients.Delete(c.ID())', 's.clients.Delete(c.Addr())')])
m('C36 close flag', 'C36', [(CO, '''		_, _ = c.tcpConn.Write(closeMessage)
		// discard all streams
		_ = c.tcpConn.Close()
''', '''		if _, err := c.tcpConn.Write(closeMessage); err == nil {
			_ = c.tcpConn.Close()
		}
''')])
# ---- C20 ----
RP = 'pkg/protocol/resp.go'; RD = 'pkg/protocol/reader.go'
EN = 'pkg/db/engine.go'; GL = 'pkg/command/global.go'; LI = 'pkg/command/list.go'
m('C20 raw error', 'C20', [(EN, 'return protocol.NewRedisError("ERR vertex server internal error")', 'return protocol.NewRedisError("ERR vertex server internal error, err=" + err.Error())')])
m('C20 go error', 'C20', [(EN, 'return protocol.NewRedisError("ERR vertex server internal error")', 'return protocol.NewRedisErrorFromGoError(err)')])
m('C20 formatted', 'C20', [(EN, 'return protocol.NewRedisError("ERR vertex server internal error")', 'return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, err=%v", err))')])
m('C20 fmt int', 'C20', [(EN, 'return protocol.NewRedisError("ERR vertex server internal error")', 'return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, db=%d", dbCount()))'), (EN, 'func (e *engine) Stop() {', 'func dbCount() int {\n\treturn 1\n}\n\nfunc (e *engine) Stop() {')], bad=False)
m('C20 helper', 'C20', [(EN, 'return protocol.NewRedisError("ERR vertex server internal error")', 'return errReply("vertex server internal error")'), (EN, 'return protocol.NewRedisError("ERR no such command")', 'return errReply("no such command")'), (EN, 'func (e *engine) Stop() {', 'func errReply(s string) protocol.RedisError {\n\treturn protocol.NewRedisError("ERR " + s)\n}\n\nfunc (e *engine) Stop() {')], bad=False)
m('C20 getset simple', 'C20', [(GL, '''s.result = protocol.NewSimpleRedisString("OK")''', '''s.result = s.arguments[1].AsSimpleStringObject()''')] if False else [(EN, 'return protocol.NewRedisError("ERR no such command")', 'return protocol.NewRedisError("ERR no such command" + map[string]string{"a": "b\\r\\n"}["a"])')])
# ---- C21 ----
m('C21 bulk rune length', 'C21', [(RP, 'BulkStringType, len(data), Delimiter, data', 'BulkStringType, len([]rune(data)), Delimiter, data')])
m('C21 array loses nil', 'C21', [(RP, '''	for _, obj := range data {
		ra.data''', '''	for _, obj := range data {
		if obj.Type() == ErrorType {
			continue
		}
		ra.data''')])
m('C21 byte stale', 'C21', [(RP, '''func (ra *redisArray) Byte() []byte {
	return ra.byteRep''', '''func (ra *redisArray) Byte() []byte {
	if len(ra.data) == 0 {
		return []byte(NullArrayLiteral)
	}
	return ra.byteRep''')])
m('C21 int as bulk', 'C21', [(RP, '"%s%d%s", IntegerType, data', '"%s%x%s", IntegerType, data')])
m('C21 empty error', 'C21', [(RP, '''	s := fmt.Sprintf("%s%s%s", ErrorType, data.Error(), Delimiter)
''', '''	s := fmt.Sprintf("%s%s%s", ErrorType, data.Error(), Delimiter)
	if data.Error() == "" {
		s = ErrorType + "ERR" + Delimiter
	}
''')])
m('C21 null bulk empty', 'C21', [(RP, '''		data:      "",
		stringRep: NullBulkStringLiteral,''', '''		data:      "",
		stringRep: "$0\\r\\n\\r\\n",''')])
m('C21 refactor concat', 'C21', [(RP, '''	s := fmt.Sprintf("%s%d%s%s%s", BulkStringType, len(data), Delimiter, data, Delimiter)
''', '''	s := BulkStringType + strconv.Itoa(len(data)) + Delimiter + data + Delimiter
'''), (RP, '	"fmt"\n', '	"fmt"\n	"strconv"\n')], bad=False)
m('C21 refactor helper', 'C21', [(RP, '''	s := fmt.Sprintf("%s%s%s", ErrorType, data, Delimiter)

''', '''	s := line(ErrorType, data)

'''), (RP, '''	s := fmt.Sprintf("%s%d%s", IntegerType, data, Delimiter)
''', '''	s := line(IntegerType, fmt.Sprint(data))
''') if False else (RP, '''	s := fmt.Sprintf("%s%s%s", SimpleStringType, data, Delimiter)
''', '''	s := line(SimpleStringType, data)
'''), (RP, 'type redisString struct {', '''func line(kind, text string) string {
	var b strings.Builder
	b.WriteString(kind)
	b.WriteString(text)
	b.WriteString(Delimiter)
	return b.String()
}

type redisString struct {'''), (RP, '	"fmt"\n', '	"fmt"\n	"strings"\n')], bad=False)
m('C21 refactor array', 'C21', [(RP, '''	buf.WriteString(fmt.Sprintf("%s%d%s", ArrayType, len(data), Delimiter))

	for _, obj := range data {
		ra.data = append(ra.data, obj)
		buf.Write(obj.Byte())
	}

	ra.byteRep = buf.Bytes()
	ra.stringRep = buf.String()
''', '''	_, _ = fmt.Fprintf(&buf, "%s%d%s", ArrayType, len(data), Delimiter)

	for i := 0; i < len(data); i++ {
		buf.WriteString(data[i].String())
	}

	ra.data = append(ra.data, data...)
	ra.stringRep = buf.String()
	ra.byteRep = []byte(ra.stringRep)
''')], bad=False)
m('C21 refactor from go error', 'C21', [(RP, '''	s := fmt.Sprintf("%s%s%s", ErrorType, data.Error(), Delimiter)

	return &redisError{
		data:      data.Error(),
		stringRep: s,
		byteRep:   []byte(s),
	}
''', '''	return NewRedisError(data.Error())
''')], bad=False)
m('C21 refactor lazy byte', 'C21', [(RP, '''func (ri *redisInteger) Byte() []byte {
	return ri.byteRep''', '''func (ri *redisInteger) Byte() []byte {
	return []byte(ri.stringRep)''')], bad=False)
m('C21 data loses nil', 'C21', [(RP, '		ra.data = append(ra.data, obj)\n', '		if obj.String() != NullBulkStringLiteral {\n			ra.data = append(ra.data, obj)\n		}\n')])
m('C21 refactor data index', 'C21', [(RP, '		ra.data = append(ra.data, obj)\n', '		ra.data[i] = obj\n'), (RP, '	for _, obj := range data {', '	ra.data = make([]RedisObject, len(data))\n	for i, obj := range data {')], bad=False)
m('C21 refactor data copy', 'C21', [(RP, '		ra.data = append(ra.data, obj)\n', ''), (RP, '	for _, obj := range data {', '	ra.data = append(ra.data, data...)\n	for _, obj := range data {')], bad=False)
# ---- C22 ----
m('C22 bulk one less', 'C22', [(RD, 'r.readBytes(int(sLen) + 2)', 'r.readBytes(int(sLen) + 1)')])
m('C22 bulk trimmed', 'C22', [(RD, 'NewBulkRedisString(r.token[:sLen])', 'NewBulkRedisString(strings.TrimSpace(r.token[:sLen]))'), (RD, '	"strconv"\n', '	"strconv"\n	"strings"\n')])
m('C22 simple cut', 'C22', [(RD, 'return NewSimpleRedisString(r.token[1 : l-2]), nil', 'return NewSimpleRedisString(r.token[1 : l-1]), nil')])
m('C22 error as simple', 'C22', [(RD, '		case ErrorType:\n			return r.readError()', '		case ErrorType:\n			l := len(r.token)\n			return NewSimpleRedisString(r.token[1 : l-2]), nil')])
m('C22 null any negative', 'C22', [(RD, '		if sLen == -1 {', '		if sLen < 0 {')])
m('C22 null array zero', 'C22', [(RD, '	if aLen == -1 {', '	if aLen <= 0 {')])
m('C22 array skips null', 'C22', [(RD, '		objects = append(objects, obj)', '		if obj.Type() != BulkStringType || obj.String() != NullBulkStringLiteral {\n			objects = append(objects, obj)\n		}')])
m('C22 array stops at error', 'C22', [(RD, '''			return nil, fmt.Errorf("read array object failed. index=%d, err={%w}", i, err)
''', '''			break
''')])
m('C22 array max', 'C22', [(RD, '''		objects = append(objects, obj)
''', '''		objects = append(objects, obj)
		if len(objects) >= 1024 {
			break
		}
''')])
m('C22 bad int zero', 'C22', [(RD, '''	if err != nil {
		return nil, err
	}
	return NewRedisInteger(num), nil''', '''	if err != nil {
		num = 0
	}
	return NewRedisInteger(num), nil''')])
m('C22 int hex', 'C22', [(RD, 'num, err := strconv.ParseInt(r.token[1:l-2], 10, 64)', 'num, err := strconv.ParseInt(r.token[1:l-2], 0, 64)')])
m('C22 stale length', 'C22', [(RD, 'NewBulkRedisString(r.token[:sLen])', 'NewBulkRedisString(curToken[:sLen])')])
m('C22 read error kept', 'C22', [(RD, '''			return fmt.Errorf("read byte failed. buf=%s, err={%w}", buf.String(), err)
''', '''			break
''')])
m('C22 refactor payload', 'C22', [(RD, '''func (r *respReader) readError() (RedisError, error) {
	l := len(r.token)
	return NewRedisError(r.token[1 : l-2]), nil
}''', '''func (r *respReader) readError() (RedisError, error) {
	return NewRedisError(r.payload()), nil
}

func (r *respReader) payload() string {
	return r.token[1 : len(r.token)-2]
}'''), (RD, '''	l := len(r.token)
	num, err := strconv.ParseInt(r.token[1:l-2], 10, 64)
''', '''	num, err := util.ParseInt64(r.payload())
'''), (RD, '	"strconv"\n', '	"strconv"\n\n	"github.com/lxdlam/vertex/pkg/util"\n') if False else (RD, '''	num, err := util.ParseInt64(r.payload())
''', '''	num, err := strconv.ParseInt(r.payload(), 10, 64)
''')], bad=False)
m('C22 refactor readfull', 'C22', [(RD, '''	var buf bytes.Buffer

	if count < 0 {
		return fmt.Errorf("invalid count. count=%d", count)
	}

	for i := 0; i < count; i++ {
		b, err := r.reader.ReadByte()

		if err != nil {
			return fmt.Errorf("read byte failed. buf=%s, err={%w}", buf.String(), err)
		}

		buf.WriteByte(b)
	}
''', '''	var buf bytes.Buffer

	if count < 0 {
		return fmt.Errorf("invalid count. count=%d", count)
	}

	if _, err := io.CopyN(&buf, r.reader, int64(count)); err != nil {
		return fmt.Errorf("read bytes failed. err={%w}", err)
	}
''')], bad=False)
m('C22 refactor array loop', 'C22', [(RD, '''	for i := 0; i < int(aLen); i++ {
		obj, err := r.readObject()
		if err != nil {
			return nil, fmt.Errorf("read array object failed. index=%d, err={%w}", i, err)
		}
		objects = append(objects, obj)
	}
''', '''	for int64(len(objects)) < aLen {
		obj, err := r.readObject()
		if err != nil {
			return nil, fmt.Errorf("read array object failed. index=%d, err={%w}", len(objects), err)
		}
		objects = append(objects, obj)
	}
''')], bad=False)
m('C22 refactor countdown', 'C22', [(RD, '''	for i := 0; i < int(aLen); i++ {
		obj, err := r.readObject()
		if err != nil {
			return nil, fmt.Errorf("read array object failed. index=%d, err={%w}", i, err)
		}
		objects = append(objects, obj)
	}
''', '''	for left := aLen; left > 0; left-- {
		obj, err := r.readObject()
		if err != nil {
			return nil, fmt.Errorf("read array object failed. left=%d, err={%w}", left, err)
		}
		objects = append(objects, obj)
	}
''')], bad=False)
m('C22 refactor dispatch', 'C22', [(RD, '''	if err := r.readToken(); err == nil {
		switch r.peek() {
		case SimpleStringType, BulkStringType:
			return r.readString()
		case ErrorType:
			return r.readError()
		case IntegerType:
			return r.readInteger()
		case ArrayType:
			return r.readArray()
		default:
			return nil, fmt.Errorf("invalid token. token=%s", r.token)
		}
	} else {
		return nil, fmt.Errorf("peek front meet error. token=%s, err={%w}", r.token, err)
	}
''', '''	err := r.readToken()
	if err != nil {
		return nil, fmt.Errorf("peek front meet error. token=%s, err={%w}", r.token, err)
	}

	kind := r.peek()
	if kind == ArrayType {
		return r.readArray()
	}
	if kind == IntegerType {
		return r.readInteger()
	}
	if kind == SimpleStringType || kind == BulkStringType {
		return r.readString()
	}
	if kind != ErrorType {
		return nil, fmt.Errorf("invalid token. token=%s", r.token)
	}
	return r.readError()
''')], bad=False)
m('C22 refactor string', 'C22', [(RD, '''		if sLen == -1 {
			return NewNullBulkRedisString(), nil
		} else if sLen < 0 {
			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
		} else if err := r.readBytes(int(sLen) + 2); err == nil {
			return NewBulkRedisString(r.token[:sLen]), nil
		} else {
			return nil, fmt.Errorf("read real string failed. length=%d, token=%s, err={%w}", sLen, r.token, err)
		}
''', '''		if sLen < 0 {
			if sLen != -1 {
				return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
			}
			return NewNullBulkRedisString(), nil
		}

		size := int(sLen)
		if err := r.readBytes(size + len(Delimiter)); err != nil {
			return nil, fmt.Errorf("read real string failed. length=%d, token=%s, err={%w}", sLen, r.token, err)
		}
		data := r.token[:size]
		return NewBulkRedisString(data), nil
''')], bad=False)
# ---- C10 ----
m('C10 no limit', 'C10', [(RD, '''	if r.depth >= maxDepth {
		return nil, fmt.Errorf("array is nested too deep. depth=%d", r.depth)
	}

''', '')])
m('C10 not raised', 'C10', [(RD, '''	r.depth++
	defer func() { r.depth-- }()

''', '')])
m('C10 depth leaks', 'C10', [(RD, '''	defer func() { r.depth-- }()

''', ''), (RD, '''	return NewRedisArray(objects), nil''', '''	r.depth--
	return NewRedisArray(objects), nil''')])
m('C10 make', 'C10', [(RD, '	var objects []RedisObject\n', '	objects := make([]RedisObject, 0, aLen)\n')])
m('C10 grow', 'C10', [(RD, '''	for i := 0; i < count; i++ {
		b, err''', '''	buf.Grow(count)
	for i := 0; i < count; i++ {
		b, err''')])
m('C10 make limited', 'C10', [(RD, '	var objects []RedisObject\n', '''	size := aLen
	if size > 1024 {
		size = 1024
	}
	if size < 0 {
		size = 0
	}
	objects := make([]RedisObject, 0, size)
''')], bad=False)
m('C10 refactor param', 'C10', [(RD, '''	if r.depth >= maxDepth {
		return nil, fmt.Errorf("array is nested too deep. depth=%d", r.depth)
	}

	r.depth++
	defer func() { r.depth-- }()
''', '''	if depth >= maxDepth {
		return nil, fmt.Errorf("array is nested too deep. depth=%d", depth)
	}
'''), (RD, 'readArray() (', 'readArray(depth int) ('), (RD, 'readObject() (', 'readObject(depth int) ('), (RD, 'obj, err := r.readObject()', 'obj, err := r.readObject(depth + 1)'), (RD, 'return r.readArray()', 'return r.readArray(depth)'), (RD, 'return r.readObject()', 'return r.readObject(0)'), (RD, 'return r.readObject()', 'return r.readObject(0)')], bad=False)
m('C10 refactor helper', 'C10', [(RD, '''	if r.depth >= maxDepth {
		return nil, fmt.Errorf("array is nested too deep. depth=%d", r.depth)
	}

	r.depth++
	defer func() { r.depth-- }()
''', '''	if !r.enter() {
		return nil, fmt.Errorf("array is nested too deep. depth=%d", r.depth)
	}
	defer r.leave()
'''), (RD, 'func (r *respReader) readArray() (', '''func (r *respReader) enter() bool {
	if r.depth < maxDepth {
		r.depth++
		return true
	}
	return false
}

func (r *respReader) leave() {
	r.depth--
}

func (r *respReader) readArray() (''')], bad=False)
# ---- C33 ----
LG = 'pkg/log/log.go'; RL = 'pkg/replication/replica.go'; UT = 'pkg/util/util.go'; PF = 'pkg/log/persistent.go'
import os as _os
for _n in _os.listdir('/repo/pkg/replication'):
    if 'NewReplica' in open('/repo/pkg/replication/' + _n).read(): RL = 'pkg/replication/' + _n
m('C33 big endian', 'C33', [(LG, 'binary.LittleEndian.PutUint32(b, uint32(length))', 'binary.BigEndian.PutUint32(b, uint32(length))')])
m('C33 narrow', 'C33', [(LG, 'uint32(length))', 'uint32(uint16(length)))')])
m('C33 length plus', 'C33', [(LG, 'uint32(length))', 'uint32(length+4))')])
m('C33 marshal err', 'C33', [(LG, '''	message, err := proto.Marshal(vl)
	if err != nil {
		return nil, err
	}
''', '''	message, err := proto.Marshal(vl)
	if err != nil && len(message) == 0 {
		return nil, err
	}
''')])
m('C33 body order', 'C33', [(LG, '	buf.Write(b)\n	buf.Write(message)\n', '	buf.Write(message)\n	buf.Write(b)\n')])
m('C33 header 2', 'C33', [(LG, 'lr.readBytes(4)', 'lr.readBytes(2)')])
m('C33 body less', 'C33', [(LG, 'lr.readBytes(length)', 'lr.readBytes(length - 1)')])
m('C33 header eof clean', 'C33', [(LG, '''		if len(lengthByte) != 0 {
			return nil, errUnexpectedEOF
		}
''', '')])
m('C33 body eof clean', 'C33', [(LG, '''			return nil, errUnexpectedEOF
		}

		return nil, err
	}

	v := ''', '''			return nil, io.EOF
		}

		return nil, err
	}

	v := ''')])
m('C33 torn loses', 'C33', [(LG, 'return ret, ErrIncompleteLog', 'return nil, ErrIncompleteLog')])
m('C33 bad stops', 'C33', [(LG, '''				// Try parse more
				continue
''', '''				return ret, nil
''')])
m('C33 appends before', 'C33', [(LG, 'ret = append(ret, obj)\n	}\n\n	return ret, nil', 'ret = append([]*VertexLog{obj}, ret...)\n	}\n\n	return ret, nil')])
m('C33 skip', 'C33', [(LG, '		ret = append(ret, obj)\n', '		if obj.Index > 0 {\n			ret = append(ret, obj)\n		}\n')])
m('C33 unmarshal err', 'C33', [(LG, '''	if err := proto.Unmarshal(logByte, v); err != nil {
		return nil, errInvalidMessage
	}
''', '''	_ = proto.Unmarshal(logByte, v)
''')])
m('C33 new reader', 'C33', [(LG, '	logByte, err := lr.readBytes(length)\n', '	logByte, err := util.ReadExactBytes(bufio.NewReader(lr.reader), length)\n')])
m('C33 exact drop', 'C33', [(UT, '		ret = append(ret, b)\n', '		if b != 0 || count != 4 {\n			ret = append(ret, b)\n		}\n')])
m('C33 exact err', 'C33', [(UT, '''		if err != nil {
			return ret, err
		}
''', '''		if err == io.EOF {
			return ret, nil
		} else if err != nil {
			return ret, err
		}
''')])
m('C33 refactor append', 'C33', [(LG, '''	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, uint32(length))

	buf.Write(b)
	buf.Write(message)

	return buf.Bytes(), nil
''', '''	b := make([]byte, 4, 4+length)
	binary.LittleEndian.PutUint32(b, uint32(length))

	return append(b, message...), nil
'''), (LG, '	var buf bytes.Buffer\n\n	message', '	message'), (LG, '	"bytes"\n', '')], bad=False)
m('C33 refactor copy', 'C33', [(LG, '''	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, uint32(length))

	buf.Write(b)
	buf.Write(message)

	return buf.Bytes(), nil
''', '''	b := make([]byte, 4+length)
	binary.LittleEndian.PutUint32(b[:4], uint32(length))
	copy(b[4:], message)

	return b, nil
'''), (LG, '	var buf bytes.Buffer\n\n	message', '	message'), (LG, '	"bytes"\n', '')], bad=False)
m('C33 refactor binary write', 'C33', [(LG, '''	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, uint32(length))

	buf.Write(b)
''', '''	if err := binary.Write(&buf, binary.LittleEndian, uint32(length)); err != nil {
		return nil, err
	}
''')], bad=False)
m('C33 refactor readfull', 'C33', [(LG, '''	lengthByte, err := lr.readBytes(4)
	if errors.Is(err, io.EOF) {
		if len(lengthByte) != 0 {
			return nil, errUnexpectedEOF
		}
		return nil, io.EOF
	} else if err != nil {
		return nil, err
	}
''', '''	lengthByte := make([]byte, 4)
	if _, err := io.ReadFull(lr.reader, lengthByte); err == io.ErrUnexpectedEOF {
		return nil, errUnexpectedEOF
	} else if err != nil {
		return nil, err
	}
''')], bad=False)
m('C33 refactor readfull body', 'C33', [(LG, '''	logByte, err := lr.readBytes(length)
	if err != nil {
''', '''	logByte := make([]byte, length)
	if _, err := io.ReadFull(lr.reader, logByte); err != nil {
		if err == io.ErrUnexpectedEOF {
			return nil, errUnexpectedEOF
		}
''')], bad=False)
m('C33 refactor wrapped', 'C33', [(LG, '			return nil, errUnexpectedEOF\n		}\n\n		return nil, err\n	}\n\n	v', '			return nil, fmt.Errorf("body of %d bytes: %w", length, errUnexpectedEOF)\n		}\n\n		return nil, err\n	}\n\n	v')], bad=False)
m('C33 refactor loop', 'C33', [(LG, '''		obj, err := lr.readLog()
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			} else if errors.Is(err, errUnexpectedEOF) {
				return ret, ErrIncompleteLog
			} else if errors.Is(err, errInvalidMessage) {
				// Try parse more
				continue
			} else {
				return nil, fmt.Errorf("unexpected error met. err={%w}", err)
			}
		}

		ret = append(ret, obj)
	}

	return ret, nil
''', '''		obj, err := lr.readLog()

		switch {
		case err == nil:
			ret = append(ret, obj)
		case errors.Is(err, errInvalidMessage):
			// Try parse more
		case errors.Is(err, io.EOF):
			return ret, nil
		case errors.Is(err, errUnexpectedEOF):
			return ret, ErrIncompleteLog
		default:
			return nil, fmt.Errorf("unexpected error met. err={%w}", err)
		}
	}
''')], bad=False)
m('C33 refactor exact', 'C33', [(UT, '''	var ret []byte

	for idx := 0; idx < count; idx++ {
		b, err := reader.ReadByte()
		if err != nil {
			return ret, err
		}

		ret = append(ret, b)
	}
''', '''	var ret []byte

	for len(ret) < count {
		b, err := reader.ReadByte()
		if err != nil {
			return ret, err
		}

		ret = append(ret, b)
	}
''')], bad=False)
m('C33 refactor exact make', 'C33', [(UT, '''	var ret []byte

	for idx := 0; idx < count; idx++ {
		b, err := reader.ReadByte()
		if err != nil {
			return ret, err
		}

		ret = append(ret, b)
	}
''', '''	ret := make([]byte, 0, 16)

	for left := count; left > 0; left-- {
		b, err := reader.ReadByte()
		if err != nil {
			return ret, err
		}

		ret = append(ret, b)
	}
''')], bad=False)
# ---- C29 ----
m('C29 torn', 'C29', [(MA, 'io.CopyN(tmpFile, rawFile, size)', 'io.Copy(tmpFile, rawFile)'), (MA, 'size, err := m.file.FlushedSize()', '_, err = m.file.FlushedSize()')])
m('C29 size unlocked', 'C29', [(PF, '''func (p *PersistentFile) FlushedSize() (int64, error) {
	p.mutex.Lock()
	defer p.mutex.Unlock()

	if err := p.writer.Flush(); err != nil {
		return 0, err
	}
''', '''func (p *PersistentFile) FlushedSize() (int64, error) {
	if err := p.Flush(); err != nil {
		return 0, err
	}
''')])
m('C29 no seek', 'C29', [(MA, '''	ret, err := tmpFile.Seek(0, 0)
	if ret != 0 {''', '''	ret, err := tmpFile.Seek(0, 1)
	if ret < 0 {''')])
m('C29 stat early', 'C29', [(MA, '''	n, err := io.CopyN(tmpFile, rawFile, size)
''', '''	s, err := tmpFile.Stat()
	if err != nil {
		return
	}

	n, err := io.CopyN(tmpFile, rawFile, size)
'''), (MA, '''	s, err := tmpFile.Stat()
	if err != nil {
		_ =''', '''	if err != nil {
		_ =''')])
m('C29 raw sent', 'C29', [(MA, 'n, err = io.Copy(conn, tmpFile)', 'n, err = io.Copy(conn, rawFile)')])
m('C29 raw size', 'C29', [(MA, 's, err := tmpFile.Stat()', 's, err := rawFile.Stat()')])
m('C29 big endian', 'C29', [(MA, 'binary.LittleEndian.PutUint32(lengthByte', 'binary.BigEndian.PutUint32(lengthByte')])
m('C29 header failure', 'C29', [(MA, '''	if n != 4 {
		_ = common.Errorf("write length of file mismatch. written=%d, addr=%s, path=%s", n, addr, filePath)
		return
	} else if err != nil {
		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
		return
	}

	n, err = io.Copy(conn, tmpFile)''', '''	if n != 4 {
		_ = common.Errorf("write length of file mismatch. written=%d, addr=%s, path=%s", n, addr, filePath)
	} else if err != nil {
		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
		return
	}

	n, err = io.Copy(conn, tmpFile)''')])
m('C29 open before flush', 'C29', [(MA, '''	// Only this much is copied, the engine may write the beginning of another record meanwhile
	size, err := m.file.FlushedSize()
''', '''	size := int64(1 << 40)
''')])
m('C29 empty return', 'C29', [(MA, '''	// TODO: Only use int32 now. Chunk the file if the size is too large.
''', '''	if s.Size() == 0 {
		_, _ = conn.Write(make([]byte, 1))
		return
	}

''')])
m('C29 receive new reader', 'C29', [(RL, 'message, err := util.ReadExactBytes(reader, length)', 'message, err := util.ReadExactBytes(bufio.NewReader(r.conn), length)')])
m('C29 receive partial', 'C29', [(RL, '''	if len(message) != length {
		return nil, ErrIncompleteMessage
	} else if err != nil {
		return nil, err
	}
''', '''	if err != nil && len(message) == 0 {
		return nil, err
	}
''')])
m('C29 receive header', 'C29', [(RL, '''	if len(lengthBytes) != 4 {
		return nil, ErrIncompleteMessage
	} else if err != nil {
		return nil, err
	}
''', '''	if len(lengthBytes) == 0 {
		return nil, nil
	} else if err != nil {
		return nil, err
	}
''')])
m('C29 receive err dropped', 'C29', [(RL, '	return log.ParseLog(bytes.NewReader(message))', '	logs, _ := log.ParseLog(bytes.NewReader(message))\n	return logs, nil')])
m('C29 refactor conn write', 'C29', [(MA, '''	n, err = io.Copy(conn, bytes.NewReader(lengthByte))
	if n != 4 {''', '''	written, err := conn.Write(lengthByte)
	if written != 4 {'''), (MA, '	"bytes"\n', '')], bad=False)
m('C29 refactor binary write', 'C29', [(MA, '''	lengthByte := make([]byte, 4)
	binary.LittleEndian.PutUint32(lengthByte, uint32(s.Size()))

	n, err = io.Copy(conn, bytes.NewReader(lengthByte))
	if n != 4 {
		_ = common.Errorf("write length of file mismatch. written=%d, addr=%s, path=%s", n, addr, filePath)
		return
	} else if err != nil {''', '''	err = binary.Write(conn, binary.LittleEndian, uint32(s.Size()))
	if err != nil {'''), (MA, '	"bytes"\n', '')], bad=False)
m('C29 refactor helper', 'C29', [(MA, '''	n, err = io.Copy(conn, bytes.NewReader(lengthByte))
	if n != 4 {
		_ = common.Errorf("write length of file mismatch. written=%d, addr=%s, path=%s", n, addr, filePath)
		return
	} else if err != nil {
		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
		return
	}

	n, err = io.Copy(conn, tmpFile)
	if n != s.Size() {
		_ = common.Errorf("write length of file mismatch. written=%d, addr=%s, path=%s", n, addr, filePath)
		return
	} else if err != nil {
		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
		return
	}
}
''', '''	_ = n
	if send(conn, bytes.NewReader(lengthByte), 4) {
		send(conn, tmpFile, s.Size())
	}
}

func send(conn net.Conn, r io.Reader, size int64) bool {
	n, err := io.Copy(conn, r)
	if err != nil {
		_ = common.Errorf("write failed. written=%d, err=%s", n, err.Error())
		return false
	}

	return n == size
}
''')], bad=False)
m('C29 refactor copied size', 'C29', [(MA, 'uint32(s.Size())', 'uint32(n)')], bad=False)
m('C29 refactor buffer', 'C29', [(MA, '''	lengthByte := make([]byte, 4)
	binary.LittleEndian.PutUint32(lengthByte, uint32(s.Size()))

	n, err = io.Copy(conn, bytes.NewReader(lengthByte))
''', '''	var header bytes.Buffer
	_ = binary.Write(&header, binary.LittleEndian, uint32(s.Size()))

	n, err = io.Copy(conn, &header)
''')], bad=False)
m('C29 refactor receive', 'C29', [(RL, '''	lengthBytes, err := util.ReadExactBytes(reader, 4)
	if len(lengthBytes) != 4 {
		return nil, ErrIncompleteMessage
	} else if err != nil {
		return nil, err
	}

	length := int(binary.LittleEndian.Uint32(lengthBytes))
''', '''	var size uint32
	if err := binary.Read(reader, binary.LittleEndian, &size); err != nil {
		return nil, ErrIncompleteMessage
	}

	length := int(size)
''')], bad=False)
m('C29 refactor receive full', 'C29', [(RL, '''	message, err := util.ReadExactBytes(reader, length)
	if len(message) != length {
		return nil, ErrIncompleteMessage
	} else if err != nil {
		return nil, err
	}
''', '''	message := make([]byte, length)
	if _, err := io.ReadFull(reader, message); err != nil {
		return nil, ErrIncompleteMessage
	}
'''), (RL, '	"errors"\n', '	"errors"\n	"io"\n')], bad=False)
# ---- C30 ----
m('C30 trunc', 'C30', [(SV, 'os.O_RDWR|os.O_APPEND|os.O_CREATE', 'os.O_RDWR|os.O_TRUNC|os.O_CREATE')])
m('C30 no append', 'C30', [(SV, 'os.O_RDWR|os.O_APPEND|os.O_CREATE', 'os.O_RDWR|os.O_CREATE')])
m('C30 no create', 'C30', [(SV, 'os.O_RDWR|os.O_APPEND|os.O_CREATE', 'os.O_RDWR|os.O_APPEND')])
m('C30 return on err', 'C30', [(SV, '		// May contains incomplete log here, so we not return\n', '		return\n')])
m('C30 no setfile', 'C30', [(SV, '	s.engine.SetFile(f, file)\n', '')])
m('C30 setfile when logs', 'C30', [(SV, '	s.engine.SetFile(f, file)\n', ''), (SV, '''		s.engine.BuildFromLog(logs)
	}
}

func drop''', '''		s.engine.BuildFromLog(logs)
		s.engine.SetFile(f, file)
	}
}

func drop''')])
m('C30 last record', 'C30', [(SV, '''	if len(logs) > 0 {
		s.engine.BuildFromLog(logs)
	}
}

func drop''', '''	if len(logs) > 1 {
		s.engine.BuildFromLog(logs)
	}
}

func drop''')])
m('C30 slice', 'C30', [(SV, '''		s.engine.BuildFromLog(logs)
	}
}

func drop''', '''		s.engine.BuildFromLog(logs[1:])
	}
}

func drop''')])
m('C30 master first', 'C30', [(SV, '''		s.fromFile(file)

''', ''), (SV, '''			s.fromMaster(master)
		}
''', '''			s.fromMaster(master)
		}
		s.fromFile(file)
''')])
m('C30 master only without logs', 'C30', [(SV, '	if len(logs) > 0 {\n		s.engine.BuildFromLog(logs)\n	}\n}\n\nfunc (s *server) fromFile', '	if len(logs) > 1 {\n		s.engine.BuildFromLog(logs)\n	}\n}\n\nfunc (s *server) fromFile')])
m('C30 no cut', 'C30', [(SV, 'if errors.Is(err, log.ErrIncompleteLog) {', 'if errors.Is(err, log.ErrIncompleteLog) && len(logs) > 0 {')])
m('C30 no rewind', 'C30', [(SV, '''	if _, err := f.Seek(0, io.SeekStart); err != nil {
		return err
	}

	size, err''', '''	size, err''')])
m('C30 async', 'C30', [(SV, '	s.syncExternal(c.DatabaseFile, c.MasterAddress)', '	go s.syncExternal(c.DatabaseFile, c.MasterAddress)')])
m('C30 start early', 'C30', [(SV, '	s.syncExternal(c.DatabaseFile, c.MasterAddress)', '	go s.engine.Start()\n	s.syncExternal(c.DatabaseFile, c.MasterAddress)')])
m('C30 replay writes', 'C30', [(EN, '		db := e.getOrCreateDB(int(vl.Index))\n		db.ExecuteCommand(c)\n\n		_, err = c.Result()', '		e.writeLog(vl.Name, int(vl.Index), append([]protocol.RedisObject{nil}, arguments...))\n		db := e.getOrCreateDB(int(vl.Index))\n		db.ExecuteCommand(c)\n\n		_, err = c.Result()')])
m('C30 swapped args', 'C30', [(SV, 's.syncExternal(c.DatabaseFile, c.MasterAddress)', 's.syncExternal(c.LogPath, c.MasterAddress)')])
m('C30 refactor config', 'C30', [(SV, 's.syncExternal(c.DatabaseFile, c.MasterAddress)', 's.syncExternal(&c)'), (SV, '''func (s *server) syncExternal(file string, master string) {
	// Init order: first init file, then master to keep the version match
	if file != "" {
		s.fromFile(file)

		// Current implementation depends on a database file
		if master != "" {
			s.fromMaster(master)
		}
	}
}
''', '''func (s *server) syncExternal(c *common.Config) {
	if len(c.DatabaseFile) == 0 {
		return
	}
	s.fromFile(c.DatabaseFile)
	if len(c.MasterAddress) > 0 {
		s.fromMaster(c.MasterAddress)
	}
}
''')], bad=False)
m('C30 refactor build', 'C30', [(SV, '''	if len(logs) > 0 {
		s.engine.BuildFromLog(logs)
	}
}

func drop''', '''	s.rebuild(logs)
}

func (s *server) rebuild(logs []*log.VertexLog) {
	if len(logs) == 0 {
		return
	}
	s.engine.BuildFromLog(logs)
}

func drop'''), (SV, '	if len(logs) > 0 {\n		s.engine.BuildFromLog(logs)\n	}\n}\n\nfunc (s *server) fromFile', '	s.rebuild(logs)\n}\n\nfunc (s *server) fromFile')], bad=False)
m('C30 refactor switch', 'C30', [(SV, '''	if err != nil {
		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
		// May contains incomplete log here, so we not return
	}

	if errors.Is(err, log.ErrIncompleteLog) {
		// New records appended after the incomplete one could never be read again
		if err := dropIncompleteTail(f); err != nil {
			common.Warnf("drop the incomplete log failed. file=%s, err=%s", file, err.Error())
		}
	}
''', '''	switch {
	case err == nil:
	case errors.Is(err, log.ErrIncompleteLog):
		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
		if err := dropIncompleteTail(f); err != nil {
			common.Warnf("drop the incomplete log failed. file=%s, err=%s", file, err.Error())
		}
	default:
		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
	}
''')], bad=False)
m('C30 refactor readfile', 'C30', [(SV, '''	reader := bufio.NewReader(f)
	logs, err := log.ParseLog(reader)
''', '''	logs, err := log.ParseLog(f)
'''), (SV, '	"bufio"\n', '')], bad=False)
m('C30 refactor always build', 'C30', [(SV, '''	if len(logs) > 0 {
		s.engine.BuildFromLog(logs)
	}
}

func drop''', '''	s.engine.BuildFromLog(logs)
}

func drop''')], bad=False)
# ---- C27 ----
EB = 'pkg/concurrency/event_bus.go'
TP = 'pkg/concurrency/topic.go'
m('C27 publish err', 'C27', [(EB, 'topic.Publish(NewEvent(name, data, err))', 'topic.Publish(NewEvent(name, data, nil))')])
m('C27 source', 'C27', [(EB, 'NewEventWithSource(name, source, data, err))', 'NewEventWithSource(source, name, data, err))')])
m('C27 subscriber name', 'C27', [(EB, 'topic.Subscribe(subscriber), nil', 'topic.Subscribe(name), nil')])
m('C27 options', 'C27', [(EB, 'topic.SubscribeWithOptions(subscriber, size, duration), nil', 'topic.Subscribe(subscriber), nil')])
m('C27 replace topic', 'C27', [(EB, '''	_, exist := e.topics[name]

	if exist {
		return false
	}

	e.topics[name]''', '''	_, exist := e.topics[name]

	if exist && len(e.topics) > 2 {
		return false
	}

	e.topics[name]''')])
m('C27 not deleted', 'C27', [(EB, '	delete(e.topics, name)\n', '')])
m('C27 not told', 'C27', [(EB, '	topic.Remove()\n', '	_ = topic\n')])
m('C27 exist', 'C27', [(EB, '''	_, exist := e.topics[name]

	return exist''', '''	_, exist := e.topics[name]

	return !exist''')])
m('C27 no error', 'C27', [(EB, '''	if !ok {
		return nil, ErrNoSuchTopic
	}

	return topic.SubscribeW''', '''	if !ok {
		return nil, nil
	}

	return topic.SubscribeW''')])
m('C27 topic unnamed', 'C27', [(EB, 'e.topics[name] = NewTopic(name)', 'e.topics[name] = NewTopic("")')])
m('C27 two buses', 'C27', [(EB, '''	once.Do(func() {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	})
''', '''	if eventBusInstance == nil {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	}
'''), (EB, 'var once sync.Once\n', '')])
m('C27 keep sub', 'C27', [(TP, '''	r, s := NewDataChannel()
	t.subscribers.Store(name, s)
''', '''	r, s := NewDataChannel()
	t.subscribers.LoadOrStore(name, s)
''')])
m('C27 store topic name', 'C27', [(TP, '''NewDataChannelWithOption(size, duration)
	t.subscribers.Store(name, s)''', '''NewDataChannelWithOption(size, duration)
	t.subscribers.Store(t.name, s)''')])
m('C27 remove err', 'C27', [(TP, 'NewEvent(t.name, nil, ErrTopicRemoved)', 'NewEvent(t.name, ErrTopicRemoved, nil)')])
m('C27 event swapped', 'C27', [(EB, '		topic:  topic,\n		time:   time.Now().Unix(),\n		source: source,', '		topic:  source,\n		time:   time.Now().Unix(),\n		source: topic,')])
m('C27 accessor', 'C27', [(EB, '	return e.source\n', '	return e.topic\n')])
m('C27 refactor delegate', 'C27', [(EB, '''	topic, ok := e.topics[name]

	if !ok {
		return NewFuture(NewErrorTask(ErrNoSuchTopic))
	}

	return topic.Publish(NewEvent(name, data, err))
}''', '''	return e.send(name, NewEvent(name, data, err))
}

func (e *eventBus) send(name string, ev Event) Future {
	if topic := e.topics[name]; topic != nil {
		return topic.Publish(ev)
	}

	return NewFuture(NewErrorTask(ErrNoSuchTopic))
}''')], bad=False)
m('C27 refactor publish source', 'C27', [(EB, '''func (e *eventBus) Publish(name string, data interface{}, err error) Future {
	e.mutex.RLock()
	defer e.mutex.RUnlock()

	topic, ok := e.topics[name]

	if !ok {
		return NewFuture(NewErrorTask(ErrNoSuchTopic))
	}

	return topic.Publish(NewEvent(name, data, err))
}''', '''func (e *eventBus) Publish(name string, data interface{}, err error) Future {
	return e.PublishWithSource(name, anonymousSource, data, err)
}''')], bad=False)
m('C27 refactor get', 'C27', [(EB, '''	topic, ok := e.topics[name]

	if !ok {
		return nil, ErrNoSuchTopic
	}

	return topic.Subscribe(subscriber), nil
}
''', '''	topic, err := e.get(name)
	if err != nil {
		return nil, err
	}

	return topic.Subscribe(subscriber), nil
}

func (e *eventBus) get(name string) (Topic, error) {
	if topic, ok := e.topics[name]; ok {
		return topic, nil
	}

	return nil, ErrNoSuchTopic
}
''')], bad=False)
m('C27 refactor add', 'C27', [(EB, '''	_, exist := e.topics[name]

	if exist {
		return false
	}

	e.topics[name] = NewTopic(name)

	return true
''', '''	_, exist := e.topics[name]

	if !exist {
		e.topics[name] = NewTopic(name)
	}

	return !exist
''')], bad=False)
m('C27 refactor remove', 'C27', [(EB, '''	topic, exist := e.topics[name]

	if !exist {
		return false
	}

	topic.Remove()
	delete(e.topics, name)

	return true
''', '''	topic, exist := e.topics[name]

	if exist {
		delete(e.topics, name)
		topic.Remove()
	}

	return exist
''')], bad=False)
m('C27 refactor sub', 'C27', [(TP, '''	r, s := NewDataChannel()
	t.subscribers.Store(name, s)
	return r
''', '''	return t.SubscribeWithOptions(name, 0, DefaultExpireTime)
''')], bad=False)
m('C27 refactor helper', 'C27', [(TP, '''	r, s := NewDataChannel()
	t.subscribers.Store(name, s)
	return r
''', '''	return t.register(name)(NewDataChannel())
'''), (TP, 'func (t *topic) Publish', '''func (t *topic) register(name string) func(r Receiver, s Sender) Receiver {
	return func(r Receiver, s Sender) Receiver {
		t.subscribers.Store(name, s)
		return r
	}
}

func (t *topic) Publish''')], bad=False)

HA, SE, SM, SC = 'pkg/container/hash.go', 'pkg/container/set.go', 'pkg/container/string_map.go', 'pkg/container/string.go'
HSET = '''		if entry, ok := h.container[keys[i].String()]; !ok {
			h.container[keys[i].String()] = &hashEntry{
				key:   keys[i],
				value: values[i],
			}
		} else {
			entry.value = values[i]
		}
'''
m('C44 hset no update', 'C44', [(HA, '''		} else {
			entry.value = values[i]
		}
''', '''		} else {
			_ = entry
		}
''')])
m('C44 hset value key', 'C44', [(HA, '				value: values[i],\n', '				value: keys[i],\n')])
m('C44 hset value first', 'C44', [(HA, '				value: values[i],\n', '				value: values[0],\n')])
m('C44 hset update first', 'C44', [(HA, '			entry.value = values[i]\n', '			entry.value = values[l-1]\n')])
m('C44 hset update key', 'C44', [(HA, '			entry.value = values[i]\n', '			entry.key = values[i]\n')])
m('C44 hset update lower', 'C44', [(HA, 'if entry, ok := h.container[keys[i].String()]; !ok {', 'if entry, ok := h.container[strings.ToLower(keys[i].String())]; !ok {'), (HA, '	"errors"\n', '	"errors"\n	"strings"\n')])
m('C44 hset stop', 'C44', [(HA, '''			entry.value = values[i]
		}
''', '''			entry.value = values[i]
			break
		}
''')])
m('C44 hset from 1', 'C44', [(HA, '	for i := 0; i < l; i++ {\n		if entry', '	for i := 1; i < l; i++ {\n		if entry')])
m('C44 hset to l-1', 'C44', [(HA, '	for i := 0; i < l; i++ {\n		if entry', '	for i := 0; i < l-1; i++ {\n		if entry')])
m('C44 hset count l', 'C44', [(HA, 'return h.Len() - before, nil', '_ = before\n	return l, nil')])
m('C44 hset count rev', 'C44', [(HA, 'return h.Len() - before, nil', 'return before - h.Len(), nil')])
m('C44 hset before late', 'C44', [(HA, '	before := h.Len()\n\n', ''), (HA, 'return h.Len() - before, nil', 'before := h.Len()\n	return h.Len() - before, nil')])
m('C44 hset no len test', 'C44', [(HA, '	if l != len(values) {\n		return 0, ErrHashLengthNotMatch\n	}\n\n	before', '	if len(values) < l {\n		l = len(values)\n	}\n\n	before')])
m('C44 hget key', 'C44', [(HA, 'ret = append(ret, entry.value)\n		}\n	}\n\n	return ret\n}\n\nfunc (h *hashContainer) Exists', 'ret = append(ret, entry.key)\n		}\n	}\n\n	return ret\n}\n\nfunc (h *hashContainer) Exists')])
m('C44 hget skip', 'C44', [(HA, '			ret = append(ret, nil)\n', '			continue\n')])
m('C44 hget empty', 'C44', [(HA, '			ret = append(ret, nil)\n', '			ret = append(ret, key)\n')])
m('C44 hexists neg', 'C44', [(HA, '	return ret\n}\n\nfunc (h *hashContainer) Del', '	return !ret\n}\n\nfunc (h *hashContainer) Del')])
m('C44 hdel count all', 'C44', [(HA, '''			delete(h.container, key.String())
			removed++
		}
''', '''			delete(h.container, key.String())
		}
		removed++
''')])
m('C44 hdel len', 'C44', [(HA, '	return removed\n', '	return len(keys)\n'), (HA, 'removed++', '_ = removed')])
m('C44 hdel first', 'C44', [(HA, 'delete(h.container, key.String())', 'delete(h.container, keys[0].String())')])
m('C44 hdel key()', 'C44', [(HA, 'delete(h.container, key.String())', 'delete(h.container, h.key)')])
m('C44 keys values', 'C44', [(HA, 'ret = append(ret, entry.key)', 'ret = append(ret, entry.value)')])
m('C44 entries swapped', 'C44', [(HA, 'return keys, values\n', 'return values, keys\n')])
m('C44 entries skip empty', 'C44', [(HA, '''		keys = append(keys, entry.key)
		values = append(values, entry.value)
''', '''		keys = append(keys, entry.key)
		if entry.value.Len() > 0 {
			values = append(values, entry.value)
		}
''')])
m('C44 values skip', 'C44', [(HA, '''	for _, entry := range h.container {
		ret = append(ret, entry.value)
''', '''	for _, entry := range h.container {
		if entry.value.Len() == 0 {
			continue
		}
		ret = append(ret, entry.value)
''')])
m('C44 keylen key', 'C44', [(HA, 'return entry.value.Len(), nil', 'return entry.key.Len(), nil')])
m('C44 keylen err', 'C44', [(HA, 'return 0, ErrKeyNotExist', 'return 0, nil')])
m('C44 hlen', 'C44', [(HA, 'return len(h.container)', 'return len(h.container) + 1')])
m('C44 sadd count', 'C44', [(SE, '''			sc.container[item.String()] = item
			added++
		}
''', '''			sc.container[item.String()] = item
		}
		added++
''')])
m('C44 sadd two pass', 'C44', [(SE, '''	for _, item := range s {
		if _, ok := sc.container[item.String()]; !ok {
			sc.container[item.String()] = item
			added++
		}
	}

	return added
''', '''	for _, item := range s {
		if _, ok := sc.container[item.String()]; !ok {
			added++
		}
	}

	for _, item := range s {
		sc.container[item.String()] = item
	}

	return added
''')])
m('C44 sadd skip empty', 'C44', [(SE, 'if _, ok := sc.container[item.String()]; !ok {', 'if _, ok := sc.container[item.String()]; !ok && item.Len() > 0 {')])
m('C44 sadd return on known', 'C44', [(SE, '''			added++
		}
''', '''			added++
		} else {
			return added
		}
''')])
m('C44 sdel count twice', 'C44', [(SE, '			removed++\n', '			removed += len(s)\n')])
m('C44 sdel wrong', 'C44', [(SE, 'delete(sc.container, item.String())', 'delete(sc.container, s[len(s)-1].String())')])
m('C44 ismember key', 'C44', [(SE, '_, ok := sc.container[s.String()]\n', '_, ok := sc.container[sc.key]\n')])
m('C44 pop keeps', 'C44', [(SE, '	sc.Delete(ret)\n', '')])
m('C44 pop others', 'C44', [(SE, '	sc.Delete(ret)\n', '	sc.Delete(sc.RandomMember(count))\n')])
m('C44 pop delete part', 'C44', [(SE, '	sc.Delete(ret)\n', '	if len(ret) > 1 {\n		sc.Delete(ret)\n	}\n')])
m('C44 smembers dup', 'C44', [(SE, '''	for _, item := range sc.container {
		ret = append(ret, item)
	}
''', '''	for _, item := range sc.container {
		ret = append(ret, item, item)
	}
''')])
m('C44 get order', 'C44', [(SM, '			result[idx] = entry\n', '			result[l-idx-1] = entry\n')])
m('C44 set value', 'C44', [(SM, 'ssm.container[keys[idx].String()] = values[idx]', 'ssm.container[keys[idx].String()] = values[len(values)-1-idx]')])
m('C44 set nx', 'C44', [(SM, '		ssm.container[keys[idx].String()] = values[idx]\n', '		if _, ok := ssm.container[keys[idx].String()]; !ok {\n			ssm.container[keys[idx].String()] = values[idx]\n		}\n')])
m('C44 append rev', 'C44', [(SM, 'newStr := entry.Append(str)', 'newStr := str.Append(entry)')])
m('C44 append len', 'C44', [(SM, 'return newStr.Len()', 'return str.Len()')])
m('C44 append lost', 'C44', [(SM, '		ssm.container[key.String()] = newStr\n', '')])
m('C44 append entry', 'C44', [(SM, '		ssm.container[key.String()] = newStr\n', '		ssm.container[entry.String()] = newStr\n')])
m('C44 incr err', 'C44', [(SM, '''			return 0, fmt.Errorf("global: increase met an error. key=%s, err={%w}", key.String(), err)
''', '''			return ret, nil
''')])
m('C44 incr neg', 'C44', [(SM, 'entry.Increase(increment)', 'entry.Increase(-increment)')])
m('C44 incr dec', 'C44', [(SM, 'entry.Decrease(decrement)', 'entry.Increase(decrement)')])
m('C44 range swap', 'C44', [(SM, 'entry.GetRange(start, end)', 'entry.GetRange(end, start)')])
m('C44 exists count', 'C44', [(SM, '''ok {
			count++
		}
''', '''ok {
			count++
		} else {
			break
		}
''')])
m('C44 exists bool', 'C44', [(SM, '			count++\n', '			count = 1\n')])
m('C44 strlen missing', 'C44', [(SM, '	return 0, ErrKeyNotFound\n}\n\nfunc (ssm *simpleStringMap) Append', '	return 0, nil\n}\n\nfunc (ssm *simpleStringMap) Append')])
m('C44 strlen key', 'C44', [(SM, '		return entry.Len(), nil', '		return key.Len() + 0*entry.Len(), nil')])
# behaviour-preserving
m('C44 refactor put', 'C44', [(HA, HSET, '''		h.put(keys[i], values[i])
'''), (HA, 'func (h *hashContainer) Get(', '''func (h *hashContainer) put(k, v *StringContainer) {
	name := k.String()
	if e := h.container[name]; e != nil {
		e.value = v
		return
	}
	h.container[name] = &hashEntry{k, v}
}

func (h *hashContainer) Get(''')], bad=False)
m('C44 refactor put counted', 'C44', [(HA, HSET, '''		if h.put(keys[i], values[i]) {
			added++
		}
'''), (HA, '	before := h.Len()\n', '	added := 0\n'), (HA, 'return h.Len() - before, nil', 'return added, nil'), (HA, 'func (h *hashContainer) Get(', '''func (h *hashContainer) put(k, v *StringContainer) bool {
	name := k.String()
	if e, ok := h.container[name]; ok {
		e.value = v
		return false
	}
	h.container[name] = &hashEntry{key: k, value: v}
	return true
}

func (h *hashContainer) Get(''')], bad=False)
m('C44 refactor put int', 'C44', [(HA, HSET, '''		added += h.put(keys[i], values[i])
'''), (HA, '	before := h.Len()\n', '	var added int\n'), (HA, 'return h.Len() - before, nil', 'return added, nil'), (HA, 'func (h *hashContainer) Get(', '''func (h *hashContainer) put(k, v *StringContainer) int {
	name := k.String()
	if e, ok := h.container[name]; ok {
		e.value = v
		return 0
	}
	h.container[name] = &hashEntry{key: k, value: v}
	return 1
}

func (h *hashContainer) Get(''')], bad=False)
m('C44 refactor always', 'C44', [(HA, HSET, '''		h.container[keys[i].String()] = &hashEntry{key: keys[i], value: values[i]}
''')], bad=False)
m('C44 refactor range', 'C44', [(HA, '	for i := 0; i < l; i++ {\n		if entry, ok := h.container[keys[i].String()]; !ok {', '	for i, key := range keys {\n		if entry, ok := h.container[key.String()]; !ok {')], bad=False)
m('C44 refactor get', 'C44', [(HA, '''	var ret []*StringContainer

	for _, key := range keys {
		if entry, ok := h.container[key.String()]; !ok {
			ret = append(ret, nil)
		} else {
			ret = append(ret, entry.value)
		}
	}
''', '''	ret := make([]*StringContainer, len(keys))

	for i, key := range keys {
		if entry, ok := h.container[key.String()]; ok {
			ret[i] = entry.value
		}
	}
''')], bad=False)
m('C44 refactor get2', 'C44', [(HA, '''	var ret []*StringContainer

	for _, key := range keys {
		if entry, ok := h.container[key.String()]; !ok {
			ret = append(ret, nil)
		} else {
			ret = append(ret, entry.value)
		}
	}
''', '''	ret := make([]*StringContainer, 0, len(keys))

	for _, key := range keys {
		var v *StringContainer
		if entry := h.container[key.String()]; entry != nil {
			v = entry.value
		}
		ret = append(ret, v)
	}
''')], bad=False)
m('C44 refactor del', 'C44', [(HA, '''	removed := 0

	for _, key := range keys {
		if _, ok := h.container[key.String()]; ok {
			delete(h.container, key.String())
			removed++
		}
	}

	return removed
''', '''	before := len(h.container)

	for _, key := range keys {
		delete(h.container, key.String())
	}

	return before - len(h.container)
''')], bad=False)
m('C44 refactor del continue', 'C44', [(HA, '''		if _, ok := h.container[key.String()]; ok {
			delete(h.container, key.String())
			removed++
		}
''', '''		if !h.Exists(key) {
			continue
		}
		removed = removed + 1
		delete(h.container, key.String())
''')], bad=False)
m('C44 refactor keylen', 'C44', [(HA, '''	entry, ok := h.container[key.String()]

	if !ok {
		return 0, ErrKeyNotExist
	}

	return entry.value.Len(), nil
''', '''	if v := h.Get([]*StringContainer{key})[0]; v != nil {
		return v.Len(), nil
	}

	return 0, ErrKeyNotExist
''')], bad=False)
m('C44 refactor keys', 'C44', [(HA, '''	var ret []*StringContainer

	for _, entry := range h.container {
		ret = append(ret, entry.key)
	}

	return ret
''', '''	keys, _ := h.Entries()

	return keys
''')], bad=False)
m('C44 refactor members', 'C44', [(SE, '''	var ret []*StringContainer

	for _, item := range sc.container {
		ret = append(ret, item)
	}
''', '''	ret := make([]*StringContainer, 0, len(sc.container))

	for name := range sc.container {
		ret = append(ret, sc.container[name])
	}
''')], bad=False)
m('C44 refactor members2', 'C44', [(SE, '''	var ret []*StringContainer

	for _, item := range sc.container {
		ret = append(ret, item)
	}
''', '''	ret := make([]*StringContainer, len(sc.container))
	i := 0

	for _, item := range sc.container {
		ret[i] = item
		i++
	}
''')], bad=False)
m('C44 refactor pop', 'C44', [(SE, '''	ret := sc.RandomMember(count)
	sc.Delete(ret)

	return ret
''', '''	var ret []*StringContainer

	if count < 0 {
		count = -count
	}

	for name, item := range sc.container {
		if len(ret) >= count {
			break
		}
		delete(sc.container, name)
		ret = append(ret, item)
	}

	return ret
''')], bad=False)
m('C44 refactor pop inline', 'C44', [(SE, '	sc.Delete(ret)\n', '	for _, item := range ret {\n		delete(sc.container, item.String())\n	}\n')], bad=False)
m('C44 refactor random', 'C44', [(SE, '''		if count--; count < 0 {
			break
		}
		ret = append(ret, item)
''', '''		if len(ret) == count {
			return ret
		}
		ret = append(ret, item)
''')], bad=False)
m('C44 refactor ismember', 'C44', [(SE, '''	_, ok := sc.container[s.String()]
	return ok
''', '''	return sc.container[s.String()] != nil
''')], bad=False)
m('C44 refactor ismember2', 'C44', [(SE, '''	_, ok := sc.container[s.String()]
	return ok
''', '''	if _, ok := sc.container[s.String()]; ok {
		return true
	}
	return false
''')], bad=False)
m('C44 refactor strget', 'C44', [(SM, '''		if entry, ok := ssm.container[keys[idx].String()]; ok {
			result[idx] = entry
		} else {
			result[idx] = nil
		}
''', '''		result[idx] = ssm.container[keys[idx].String()]
''')], bad=False)
m('C44 refactor append', 'C44', [(SM, '''	if entry, ok := ssm.container[key.String()]; !ok {
		ssm.container[key.String()] = str
		return str.Len()
	} else {
		newStr := entry.Append(str)
		ssm.container[key.String()] = newStr
		return newStr.Len()
	}
''', '''	result := str
	if old, ok := ssm.container[key.String()]; ok {
		result = NewString(old.String() + str.String())
	}
	ssm.container[key.String()] = result
	return result.Len()
''')], bad=False)
m('C44 refactor incr', 'C44', [(SM, '''	if entry, ok := ssm.container[key.String()]; ok {
		if ret, err := entry.Increase(increment); err == nil {
			return ret, nil
		} else {
			return 0, fmt.Errorf("global: increase met an error. key=%s, err={%w}", key.String(), err)
		}
	}

	return 0, ErrKeyNotFound
''', '''	entry, ok := ssm.container[key.String()]
	if !ok {
		return 0, ErrKeyNotFound
	}
	ret, err := entry.Increase(increment)
	if err != nil {
		err = fmt.Errorf("global: increase met an error. key=%s, err={%w}", key.String(), err)
	}
	return ret, err
''')], bad=False)
m('C44 refactor incr2', 'C44', [(SM, '''	if entry, ok := ssm.container[key.String()]; ok {
		if ret, err := entry.Increase(increment); err == nil {
			return ret, nil
		} else {
			return 0, fmt.Errorf("global: increase met an error. key=%s, err={%w}", key.String(), err)
		}
	}

	return 0, ErrKeyNotFound
''', '''	entry := ssm.find(key)
	if entry == nil {
		return 0, ErrKeyNotFound
	}
	return entry.Increase(increment)
'''), (SM, 'func (ssm *simpleStringMap) Len', '''func (ssm *simpleStringMap) find(key *StringContainer) *StringContainer {
	return ssm.container[key.data]
}

func (ssm *simpleStringMap) Len''')], bad=False)
m('C44 refactor exists', 'C44', [(SM, '''	for _, key := range keys {
		if _, ok := ssm.container[key.String()]; ok {
			count++
		}
	}
''', '''	for i := 0; i < len(keys); i++ {
		_, ok := ssm.container[keys[i].String()]
		if !ok {
			continue
		}
		count += 1
	}
''')], bad=False)
m('C44 refactor sadd', 'C44', [(SE, '''		if _, ok := sc.container[item.String()]; !ok {
			sc.container[item.String()] = item
			added++
		}
''', '''		if sc.IsMember(item) {
			continue
		}
		added++
		sc.container[item.String()] = item
''')], bad=False)
m('C44 refactor sadd2', 'C44', [(SE, '''	var added int

	for _, item := range s {
		if _, ok := sc.container[item.String()]; !ok {
			sc.container[item.String()] = item
			added++
		}
	}

	return added
''', '''	before := sc.Len()
	for _, item := range s {
		sc.container[item.String()] = item
	}

	return sc.Len() - before
''')], bad=False)

DIFF = '''	ret := NewSetContainer("anonymous")
	ret.Add(sc.Members())

	for _, c := range cs {
		for _, item := range c.Members() {
			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		ret.Delete(candidate)
		candidate = nil
	}

	return ret
'''
INTER = '''		_ = ret.Pop(ret.Len())
		ret.Add(candidate)
		candidate = nil
'''
UNION = '''	for _, c := range cs {
		ret.Add(c.Members())
	}
	ret.Add(sc.Members())

	return ret
'''
m('C45 diff add', 'C45', [(SE, '		ret.Delete(candidate)\n		candidate = nil\n', '		ret.Add(candidate)\n		candidate = nil\n')])
m('C45 inter keep candidate', 'C45', [(SE, INTER, '''		_ = ret.Pop(ret.Len())
		ret.Add(candidate)
''')])
m('C45 inter no clear', 'C45', [(SE, INTER, '''		ret.Add(candidate)
		candidate = nil
''')])
m('C45 inter clear one', 'C45', [(SE, '_ = ret.Pop(ret.Len())', 'ret.Delete(candidate)')])
m('C45 union no self', 'C45', [(SE, '	}\n	ret.Add(sc.Members())\n\n	return ret\n', '	}\n\n	return ret\n')])
m('C45 union alters', 'C45', [(SE, UNION, '''	for _, c := range cs {
		sc.Add(c.Members())
	}
	ret.Add(sc.Members())

	return ret
''')])
m('C45 diff early', 'C45', [(SE, '		ret.Delete(candidate)\n		candidate = nil\n', '		if len(candidate) == 0 {\n			break\n		}\n		ret.Delete(candidate)\n		candidate = nil\n')])
m('C45 diff in loop', 'C45', [(SE, DIFF, DIFF.replace('''			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		ret.Delete(candidate)
''', '''			if ret.IsMember(item) {
				candidate = append(candidate, item)
				break
			}
		}

		ret.Delete(candidate)
'''))])
m('C45 inter sc', 'C45', [(SE, '''			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		_ = ret''', '''			if sc.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		_ = ret''')], )
m('C45 inter sc2', 'C45', [(SE, '''			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		_ = ret.Pop(ret.Len())
''', '''			if sc.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

''')])
m('C45 union first', 'C45', [(SE, UNION, '''	for _, c := range cs[1:] {
		ret.Add(c.Members())
	}
	ret.Add(sc.Members())

	return ret
''')])
m('C45 inter stops at first empty', 'C45', [(SE, INTER, INTER + '''		if ret.Len() == 0 {
			ret.Add(sc.Members())
			break
		}
''')])
m('C45 inter early one', 'C45', [(SE, INTER, INTER + '''		if ret.Len() <= 1 {
			break
		}
''')])
m('C45 diff self', 'C45', [(SE, DIFF, '''	ret := SetContainer(sc)
	for _, c := range cs {
		ret.Delete(c.Members())
	}

	_ = candidate
	return ret
''')])
m('C45 refactor diff direct', 'C45', [(SE, DIFF, '''	_ = candidate
	ret := NewSetContainer("anonymous")
	ret.Add(sc.Members())

	for _, c := range cs {
		ret.Delete(c.Members())
	}

	return ret
''')], bad=False)
m('C45 refactor diff member', 'C45', [(SE, DIFF, '''	ret := NewSetContainer("anonymous")

	for _, item := range sc.Members() {
		found := false
		for i := 0; i < len(cs) && !found; i++ {
			found = cs[i].IsMember(item)
		}
		if !found {
			candidate = append(candidate, item)
		}
	}
	ret.Add(candidate)

	return ret
''')], bad=False)
m('C45 refactor inter early', 'C45', [(SE, INTER, INTER + '''		if ret.Len() == 0 {
			break
		}
''')], bad=False)
m('C45 refactor inter new', 'C45', [(SE, '''			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		_ = ret.Pop(ret.Len())
		ret.Add(candidate)
		candidate = nil
''', '''			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		next := NewSetContainer("anonymous")
		next.Add(candidate)
		ret = next
		candidate = candidate[:0]
''')], bad=False)
m('C45 refactor inter common', 'C45', [(SE, '''		for _, item := range c.Members() {
			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		_ = ret.Pop(ret.Len())
		ret.Add(candidate)
		candidate = nil
''', '''		candidate = shared(ret, c)
		ret = NewSetContainer("anonymous")
		ret.Add(candidate)
'''), (SE, 'func (sc *setContainer) Union(', '''func shared(a, b SetContainer) (both []*StringContainer) {
	for _, item := range a.Members() {
		if b.IsMember(item) {
			both = append(both, item)
		}
	}
	return
}

func (sc *setContainer) Union(''')], bad=False)
m('C45 refactor union', 'C45', [(SE, UNION, '''	ret.Add(sc.Members())
	for i := range cs {
		for _, item := range cs[i].Members() {
			ret.Add([]*StringContainer{item})
		}
	}

	return ret
''')], bad=False)
m('C45 refactor inter delete', 'C45', [(SE, '''		for _, item := range c.Members() {
			if ret.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		_ = ret.Pop(ret.Len())
		ret.Add(candidate)
		candidate = nil
''', '''		for _, item := range ret.Members() {
			if !c.IsMember(item) {
				candidate = append(candidate, item)
			}
		}

		ret.Delete(candidate)
		candidate = nil
''')], bad=False)

LI = 'pkg/container/list.go'
m('C11 insertBefore forgets next', 'C11', [(LI, '	n.prev.next = tmp\n	n.prev = tmp\n', '	n.prev = tmp\n	n.prev.next = tmp\n')])
m('C11 insertAfter order', 'C11', [(LI, '	n.next.prev = tmp\n	n.next = tmp\n', '	n.next = tmp\n	n.next.prev = tmp\n')])
m('C11 insertAfter prev missing', 'C11', [(LI, '	n.next.prev = tmp\n	n.next = tmp\n', '	n.next = tmp\n')])
m('C11 insertAfter prev wrong', 'C11', [(LI, '		prev: n,\n		next: n.next,', '		prev: n.prev,\n		next: n.next,')])
m('C11 delete prev', 'C11', [(LI, '	n.next.prev = n.prev\n', '')])
m('C11 delete only if last', 'C11', [(LI, '	n.next.prev = n.prev\n', '	if n.next.next == nil {\n		n.next.prev = n.prev\n	}\n')])
m('C11 pushhead size once', 'C11', [(LI, '''		if err := insertAfter(l.head, item); err != nil {
			return -1, err
		}
		l.size++
	}
''', '''		if err := insertAfter(l.head, item); err != nil {
			return -1, err
		}
	}
	l.size++
''')])
m('C11 pushhead at tail', 'C11', [(LI, 'insertAfter(l.head, item)', 'insertBefore(l.tail, item)')])
m('C11 pushhead batch', 'C11', [(LI, '''		if err := insertAfter(l.head, item); err != nil {
			return -1, err
		}
		l.size++
	}
''', '''		if err := insertAfter(l.head, item); err != nil {
			return -1, err
		}
	}
	l.size += len(data)
''')], bad=False)
m('C11 pushhead block order', 'C11', [(LI, '''	for _, item := range data {
		if err := insertAfter(l.head, item); err != nil {
			return -1, err
		}
''', '''	cur := l.head
	for _, item := range data {
		if err := insertAfter(cur, item); err != nil {
			return -1, err
		}
		cur = cur.next
''')])
m('C11 pushtail after last', 'C11', [(LI, 'insertBefore(l.tail, item)', 'insertAfter(l.tail.prev, item)')], bad=False)
m('C11 pushhead before first', 'C11', [(LI, 'insertAfter(l.head, item)', 'insertBefore(l.head.next, item)')], bad=False)
m('C11 pushtail before last', 'C11', [(LI, 'insertBefore(l.tail, item)', 'insertBefore(l.tail.prev, item)')])
m('C11 popTail head', 'C11', [(LI, 'return deleteNode(l.tail.prev)', 'return deleteNode(l.tail.prev.prev)')])
m('C11 popTail one left', 'C11', [(LI, '''	if l.tail.prev == l.head {
		return dummy''', '''	if l.tail.prev == l.head || l.tail.prev.prev == l.head {
		return dummy''')])
m('C11 pop size test', 'C11', [(LI, 'if l.head.next == l.tail {', 'if l.size == 0 {')], bad=False)
m('C11 pop Len test', 'C11', [(LI, 'if l.tail.prev == l.head {', 'if l.Len() < 1 {')], bad=False)
m('C11 pop size test off', 'C11', [(LI, 'if l.head.next == l.tail {', 'if l.size <= 1 {')])
m('C11 pop no size', 'C11', [(LI, '	l.size--\n	return deleteNode(l.tail.prev)', '	return deleteNode(l.tail.prev)')])
m('C11 pop size before test', 'C11', [(LI, '''	if l.tail.prev == l.head {
		return dummy, ErrEmptyList
	}

	l.size--
''', '''	l.size--
	if l.tail.prev == l.head {
		return dummy, ErrEmptyList
	}

''')])
m('C11 pop inline', 'C11', [(LI, '''	l.size--
	return deleteNode(l.tail.prev)''', '''	n := l.tail.prev
	n.prev.next = l.tail
	l.tail.prev = n.prev
	n.prev, n.next = nil, nil
	l.size--
	return n.data, nil''')], bad=False)
m('C11 insert skip first', 'C11', [(LI, '''	cur := l.head.next

	for cur != l.tail {
		if cur.data.Equals(pivot)''', '''	cur := l.head.next.next

	for cur != l.tail {
		if cur.data.Equals(pivot)''')])
m('C11 insert tail search', 'C11', [(LI, '''	cur := l.head.next

	for cur != l.tail {
		if cur.data.Equals(pivot)''', '''	cur := l.head.next

	for cur.next != l.tail {
		if cur.data.Equals(pivot)''')])
m('C11 insert side', 'C11', [(LI, '			if after {', '			if !after {')])
m('C11 insert after last', 'C11', [(LI, '			if after {', '			if after || cur.next == l.tail {')])
m('C11 insert no return', 'C11', [(LI, '''				l.size++
			}

			return l.size, nil
		}
''', '''				l.size++
			}
			if after {
				return l.size, nil
			}
		}
''')])
m('C11 insert for loop', 'C11', [(LI, '''	cur := l.head.next

	for cur != l.tail {
		if cur.data.Equals(pivot) {
			if after {
				if err := insertAfter(cur, data); err != nil {
					return -2, err
				}
				l.size++
			} else {
				if err := insertBefore(cur, data); err != nil {
					return -2, err
				}
				l.size++
			}

			return l.size, nil
		}

		cur = cur.next
	}
''', '''	for cur := l.head.next; cur != l.tail; cur = cur.next {
		if !cur.data.Equals(pivot) {
			continue
		}
		at := cur
		if !after {
			at = cur.prev
		}
		if err := insertAfter(at, data); err != nil {
			return -2, err
		}
		l.size++
		return l.size, nil
	}
''')], bad=False)
m('C11 insert find helper', 'C11', [(LI, '''	cur := l.head.next

	for cur != l.tail {
		if cur.data.Equals(pivot) {
			if after {
				if err := insertAfter(cur, data); err != nil {
					return -2, err
				}
				l.size++
			} else {
				if err := insertBefore(cur, data); err != nil {
					return -2, err
				}
				l.size++
			}

			return l.size, nil
		}

		cur = cur.next
	}
''', '''	if cur := l.find(pivot); cur != nil {
		insert := insertBefore
		if after {
			insert = insertAfter
		}
		if err := insert(cur, data); err != nil {
			return -2, err
		}
		l.size++
		return l.size, nil
	}
'''), (LI, 'func (l *linkedList) Set(', '''func (l *linkedList) find(v *StringContainer) *listNode {
	for cur := l.head.next; cur != l.tail; cur = cur.next {
		if cur.data.Equals(v) {
			return cur
		}
	}
	return nil
}

func (l *linkedList) Set(''')], bad=False)
m('C11 remove limit off', 'C11', [(LI, '	for cur != l.tail && removed < count {', '	for cur != l.tail && removed <= count {')])
m('C11 remove zero', 'C11', [(LI, '''	if count == 0 {
		count = l.size
	}
''', '''	if count == 0 {
		count = 1
	}
''')])
m('C11 remove negative', 'C11', [(LI, 'l.deleteFromTail(-count, key)', 'l.deleteFromTail(count, key)')])
m('C11 remove tail removed twice', 'C11', [(LI, '''			cur = cur.prev
			_, _ = deleteNode(tmp)
			removed++''', '''			cur = cur.prev
			_, _ = deleteNode(tmp)
			l.size--
			removed++''')])
m('C11 remove tail count', 'C11', [(LI, '''			cur = cur.prev
			_, _ = deleteNode(tmp)
			removed++
		} else {
			cur = cur.prev
		}''', '''			cur = cur.prev
			_, _ = deleteNode(tmp)
			removed++
		} else {
			cur = cur.prev
			removed++
		}''')])
m('C11 remove skip after', 'C11', [(LI, '''			cur = cur.next
			_, _ = deleteNode(tmp)
			removed++''', '''			cur = cur.next
			if cur != l.tail {
				cur = cur.next
			}
			_, _ = deleteNode(tmp)
			removed++''')])
m('C11 remove direction', 'C11', [(LI, '	if count >= 0 {\n		removed', '	if count > 0 {\n		removed')])
m('C11 remove merged', 'C11', [(LI, '''	for cur != l.tail && removed < count {
		if cur.data.Equals(key) {
			tmp := cur
			cur = cur.next
			_, _ = deleteNode(tmp)
			removed++
		} else {
			cur = cur.next
		}
	}
''', '''	for cur != l.tail {
		if removed >= count {
			break
		}
		next := cur.next
		if cur.data.Equals(key) {
			_, _ = deleteNode(cur)
			removed++
		}
		cur = next
	}
''')], bad=False)
m('C11 remove countdown', 'C11', [(LI, '''	for cur != l.head && removed < count {
		if cur.data.Equals(key) {
			tmp := cur
			cur = cur.prev
			_, _ = deleteNode(tmp)
			removed++
		} else {''', '''	for cur != l.head && count > 0 {
		if cur.data.Equals(key) {
			tmp := cur
			cur = cur.prev
			_, _ = deleteNode(tmp)
			removed++
			count--
		} else {''')], bad=False)
m('C11 remove size inline', 'C11', [(LI, '''			cur = cur.prev
			_, _ = deleteNode(tmp)
			removed++''', '''			cur = cur.prev
			_, _ = deleteNode(tmp)
			l.size--
			removed++'''), (LI, '''			cur = cur.next
			_, _ = deleteNode(tmp)
			removed++''', '''			cur = cur.next
			_, _ = deleteNode(tmp)
			l.size--
			removed++'''), (LI, '	l.size -= removed\n', '')], bad=False)
m('C11 remove for', 'C11', [(LI, '''	cur := l.tail.prev

	for cur != l.head && removed < count {
		if cur.data.Equals(key) {
			tmp := cur
			cur = cur.prev
			_, _ = deleteNode(tmp)
			removed++
		} else {
			cur = cur.prev
		}
	}
''', '''	for cur, prev := l.tail.prev, l.tail.prev.prev; cur != l.head && removed < count; cur = prev {
		prev = cur.prev
		if !cur.data.Equals(key) {
			continue
		}
		if _, err := deleteNode(cur); err == nil {
			removed++
		}
	}
''')], bad=False)
m('C11 trim size', 'C11', [(LI, '''		l.size -= releaseList(rightNode.next)
''', '''		releaseList(rightNode.next)
''')])
m('C11 trim link', 'C11', [(LI, '		leftNode.prev = l.head\n', '')])
m('C11 trim order', 'C11', [(LI, '''		// release rightNode.next->tail.prev
		l.tail.prev.next = nil
		l.size -= releaseList(rightNode.next)
''', '''		// release rightNode.next->tail.prev
		l.size -= releaseList(rightNode.next)
''')])
m('C11 release count', 'C11', [(LI, '	length := 0\n\n	for n != nil {', '	length := 0\n\n	for n != nil && n.next != nil {')])
m('C11 release start', 'C11', [(LI, '	length := 0\n\n	for n != nil {', '	length := 1\n\n	for n != nil {')])
m('C11 release break', 'C11', [(LI, '		n = next\n		length++\n', '		n = next\n		length++\n		if length == 1024 {\n			break\n		}\n')])
m('C11 trim alt', 'C11,C46', [(LI, '''		leftNode.prev.next = nil
		l.size -= releaseList(l.head.next)
''', '''		first := l.head.next
		leftNode.prev.next = nil
		l.size -= releaseList(first)
''')], bad=False)
m('C11 release for', 'C11', [(LI, '''	for n != nil {
		next := n.next
		n.prev = nil
		n.next = nil

		n = next
		length++
	}
''', '''	for ; n != nil; length++ {
		next := n.next
		n.prev, n.next = nil, nil
		n = next
	}
''')], bad=False)
m('C11 new unlinked', 'C11', [(LI, '	tail.prev = head\n', '')])
m('C11 new size', 'C11', [(LI, '		tail: nil,\n		size: 0,', '		tail: nil,\n		size: 1,')])
m('C46 extract off', 'C46', [(LI, 'for idx := -1; idx < normIndex; idx++ {', 'for idx := 0; idx < normIndex; idx++ {')])
m('C46 extract le', 'C46', [(LI, 'for idx := -1; idx < normIndex; idx++ {', 'for idx := -1; idx <= normIndex; idx++ {')])
m('C46 extract raw', 'C46', [(LI, 'normIndex := util.NewIndex(index).Resolve(l.size)', 'normIndex := util.NewIndex(index).Resolve(l.size - 1)')])
m('C46 extract from first', 'C46', [(LI, '''		cur := l.head
		for idx := -1; idx < normIndex; idx++ {''', '''		cur := l.head.next
		for idx := 0; idx < normIndex; idx++ {''')], bad=False)
m('C46 extract countdown', 'C46', [(LI, '''		cur := l.head
		for idx := -1; idx < normIndex; idx++ {
			cur = cur.next
		}
''', '''		cur := l.head.next
		for ; normIndex > 0; normIndex-- {
			cur = cur.next
		}
''')], bad=False)
m('C46 extract neq', 'C46', [(LI, '''		for idx := -1; idx < normIndex; idx++ {''', '''		for idx := -1; idx != normIndex; idx++ {''')], bad=False)
m('C46 segment left off', 'C46', [(LI, '			if idx == normLeft {', '			if idx == normLeft-1 {')])
m('C46 segment swapped', 'C46', [(LI, '		return leftNode, rightNode\n', '		return rightNode, leftNode\n')])
m('C46 segment advance', 'C46', [(LI, '''			cur = cur.next
		}

		return leftNode, rightNode''', '''			if leftNode == nil || idx != normLeft {
				cur = cur.next
			}
		}

		return leftNode, rightNode''')])
m('C46 segment break', 'C46', [(LI, '''			if idx == normRight {
				rightNode = cur
			}
''', '''			if idx == normRight {
				rightNode = cur
				break
			}
''')], bad=False)
m('C46 segment else', 'C46', [(LI, '''			if idx == normRight {
				rightNode = cur
			}
''', '''			if leftNode != nil && idx != normLeft && idx == normRight {
				rightNode = cur
			}
''')])
m('C46 segment clamp', 'C46', [(LI, '		right = l.size - 1\n', '		right = l.size - 2\n')])
m('C46 segment two loops', 'C46', [(LI, '''		for idx := -1; idx <= normRight; idx++ {
			if idx == normLeft {
				leftNode = cur
			}

			if idx == normRight {
				rightNode = cur
			}

			cur = cur.next
		}
''', '''		for idx := -1; idx < normLeft; idx++ {
			cur = cur.next
		}
		leftNode = cur
		for idx := normLeft; idx < normRight; idx++ {
			cur = cur.next
		}
		rightNode = cur
''')], bad=False)
m('C46 segment extract', 'C46', [(LI, '''		cur := l.head

		for idx := -1; idx <= normRight; idx++ {
			if idx == normLeft {
				leftNode = cur
			}

			if idx == normRight {
				rightNode = cur
			}

			cur = cur.next
		}
''', '''		leftNode, rightNode = l.extract(normLeft), l.extract(normRight)
''')], bad=False)
m('C46 range drops last', 'C46', [(LI, '''		// Append the last one
		result = append(result, leftNode.data)
''', '''		if len(result) == 0 {
			result = append(result, leftNode.data)
		}
''')])
m('C46 range prev', 'C46', [(LI, '''			result = append(result, leftNode.data)
			leftNode = leftNode.next
''', '''			leftNode = leftNode.next
			result = append(result, leftNode.data)
''')])
m('C46 range loop', 'C46', [(LI, '''		for leftNode != rightNode {
			result = append(result, leftNode.data)
			leftNode = leftNode.next
		}

		// Append the last one
		result = append(result, leftNode.data)

		return result, nil
''', '''		for cur := leftNode; ; cur = cur.next {
			result = append(result, cur.data)
			if cur == rightNode {
				return result, nil
			}
		}
''')], bad=False)
m('C46 range until', 'C46', [(LI, '''		for leftNode != rightNode {
			result = append(result, leftNode.data)
			leftNode = leftNode.next
		}

		// Append the last one
		result = append(result, leftNode.data)
''', '''		for end := rightNode.next; leftNode != end; leftNode = leftNode.next {
			result = append(result, leftNode.data)
		}
''')], bad=False)
m('C46 set next', 'C46', [(LI, '	n.data = data\n	return nil', '	n.next.data = data\n	return nil')])
m('C46 set key', 'C46', [(LI, '	n.data = data\n	return nil', '	if !n.data.Equals(data) {\n		n.prev.data = data\n	}\n	return nil')])
m('C46 trim swapped', 'C46', [(LI, '''		// link head->leftNode
		l.head.next = leftNode
		leftNode.prev = l.head
''', '''		// link head->leftNode
		leftNode = rightNode
		l.head.next = leftNode
		leftNode.prev = l.head
''')])
IX = 'pkg/util/index.go'
m('C46 resolve raw', 'C46', [(IX, '		return i.index + size\n', '		return i.index + size - 1\n')])
m('C46 resolve out', 'C46', [(IX, 'index < 0 || index >= size {', 'index < 0 || index > size {')])
m('C46 slice order', 'C46', [(IX, '|| left > right {', '|| left >= right {')])
m('C46 slice clamp', 'C46', [(IX, '		right = size - 1\n', '		right = size\n')])
m('C46 slice clamp test', 'C46', [(IX, '	if right >= size {', '	if right > size {')])
m('C46 slice left', 'C46', [(IX, '|| left >= size || left > right {', '|| left > right {')])
m('C46 refactor resolve', 'C46', [(IX, '''	if index < 0 || index >= size {
		return -1
	}

	return index
''', '''	if index >= 0 && index <= size-1 {
		return index
	}

	return -1
'''), (IX, '''	if left < 0 || right < 0 || left >= size || left > right {
		return -1, -1
	}

	if right >= size {
		right = size - 1
	}

	return left, right
''', '''	valid := left >= 0 && right >= 0 && left < size && left <= right
	if !valid {
		return -1, -1
	}
	if last := size - 1; right > last {
		return left, last
	}
	return left, right
''')], bad=False)
m('C46 extract shortcuts', 'C46', [(LI, '''		cur := l.head
		for idx := -1; idx < normIndex; idx++ {''', '''		if normIndex == 0 {
			return l.head.next
		}
		if normIndex == l.size-1 {
			return l.tail.prev
		}
		cur := l.head
		for idx := -1; idx < normIndex; idx++ {''')], bad=False)
m('C46 extract backwards', 'C46', [(LI, '''		cur := l.head
		for idx := -1; idx < normIndex; idx++ {
			cur = cur.next
		}

		return cur
''', '''		if normIndex > l.size/2 {
			cur := l.tail.prev
			for idx := l.size - 1; idx > normIndex; idx-- {
				cur = cur.prev
			}
			return cur
		}
		cur := l.head
		for idx := -1; idx < normIndex; idx++ {
			cur = cur.next
		}

		return cur
''')], bad=False)
m('C46 extract backwards off', 'C46', [(LI, '''		cur := l.head
		for idx := -1; idx < normIndex; idx++ {
			cur = cur.next
		}

		return cur
''', '''		if normIndex > l.size/2 {
			cur := l.tail
			for idx := l.size - 1; idx > normIndex; idx-- {
				cur = cur.prev
			}
			return cur
		}
		cur := l.head
		for idx := -1; idx < normIndex; idx++ {
			cur = cur.next
		}

		return cur
''')])
m('C46 extract shortcut off', 'C46', [(LI, '''		cur := l.head
		for idx := -1; idx < normIndex; idx++ {''', '''		if normIndex == 1 {
			return l.head.next
		}
		cur := l.head
		for idx := -1; idx < normIndex; idx++ {''')])

# C39: strings
ST = 'pkg/container/string.go'
IV = 'pkg/container/int_variant.go'
INCG = '''		cur := s.intVar.Get()
		if (increment > 0 && cur > math.MaxInt64-increment) || (increment < 0 && cur < math.MinInt64-increment) {
			return 0, ErrNotAInt
		}
'''
m('C39 update forgets bytes', 'C39', [(ST, "	s.bytes = []byte(data)\n	s.size", "	if s.bytes == nil {\n		s.bytes = []byte(data)\n	}\n	s.size")])
m('C39 update forgets size', 'C39', [(ST, "	s.size = len(data)\n", "	if s.size < len(data) {\n		s.size = len(data)\n	}\n")])
m('C39 update hashes old bytes', 'C39', [(ST, "	s.bytes = []byte(data)\n	s.size = len(data)\n\n	hash := fnv.New64a()\n	_, _ = hash.Write(s.bytes)", "	s.size = len(data)\n\n	hash := fnv.New64a()\n	_, _ = hash.Write(s.bytes)\n	s.bytes = []byte(data)")])
m('C39 update before increase', 'C39', [(ST, "		s.intVar.Increase(increment)\n		s.update(s.intVar.AsString())\n", "		s.update(s.intVar.AsString())\n		s.intVar.Increase(increment)\n")])
m('C39 increase without update', 'C39', [(ST, "		s.intVar.Decrease(decrement)\n		s.update(s.intVar.AsString())\n", "		s.intVar.Decrease(decrement)\n		s.data = s.intVar.AsString()\n")])
m('C39 increase no guard', 'C39', [(ST, INCG, '')])
m('C39 increase guard one side', 'C39', [(ST, " || (increment < 0 && cur < math.MinInt64-increment)", "")])
m('C39 increase guard unsigned', 'C39', [(ST, "(increment > 0 && cur > math.MaxInt64-increment) || (increment < 0 && cur < math.MinInt64-increment)", "cur > math.MaxInt64-increment || cur < math.MinInt64-increment")])
m('C39 increase guard off by one', 'C39', [(ST, "cur > math.MaxInt64-increment)", "cur > math.MaxInt64-increment+1)")])
m('C39 increase guard refuses max', 'C39', [(ST, "cur > math.MaxInt64-increment)", "cur >= math.MaxInt64-increment)")])
m('C39 decrease by increase of minus', 'C39', [(ST, '''	if s.IsInt() {
		cur := s.intVar.Get()
		if (decrement > 0 && cur < math.MinInt64+decrement) || (decrement < 0 && cur > math.MaxInt64+decrement) {
			return 0, ErrNotAInt
		}

		s.intVar.Decrease(decrement)
		s.update(s.intVar.AsString())
		return s.intVar.Get(), nil
	}

	return 0, ErrNotAInt
''', '''	return s.Increase(-decrement)
''')])
m('C39 decrease guards then minus', 'C39', [(ST, "		s.intVar.Decrease(decrement)\n", "		s.intVar.Increase(-decrement)\n")], bad=False)
m('C39 post check', 'C39', [(ST, INCG, '''		cur := s.intVar.Get()
		sum := cur + increment
		if (increment > 0) != (sum > cur) && increment != 0 {
			return 0, ErrNotAInt
		}
''')], bad=False)
m('C39 post check plain', 'C39', [(ST, INCG, '''		cur := s.intVar.Get()
		if sum := cur + increment; (increment >= 0 && sum < cur) || (increment < 0 && sum > cur) {
			return 0, ErrNotAInt
		}
''')], bad=False)
m('C39 post check wrong', 'C39', [(ST, INCG, '''		cur := s.intVar.Get()
		if sum := cur + increment; (increment >= 0 && sum < cur) {
			return 0, ErrNotAInt
		}
''')])
m('C39 post check zero', 'C39', [(ST, INCG, '''		cur := s.intVar.Get()
		if sum := cur + increment; (increment >= 0 && sum <= cur) || (increment < 0 && sum > cur) {
			return 0, ErrNotAInt
		}
''')])
m('C39 sign check', 'C39', [(ST, INCG, '''		cur := s.intVar.Get()
		sum := cur + increment
		if (cur >= 0 && increment >= 0 && sum < 0) || (cur < 0 && increment < 0 && sum >= 0) {
			return 0, ErrNotAInt
		}
''')], bad=False)
m('C39 sign check wrong', 'C39', [(ST, INCG, '''		cur := s.intVar.Get()
		sum := cur + increment
		if (cur > 0 && increment > 0 && sum < 0) || (cur < 0 && increment < 0 && sum > 0) {
			return 0, ErrNotAInt
		}
''')])
m('C39 guard in helper', 'C39', [(ST, INCG, '''		if !fits(s.intVar.Get(), increment) {
			return 0, ErrNotAInt
		}
'''), (ST, "// Increase will", '''func fits(a, b int64) bool {
	if b >= 0 {
		return a <= math.MaxInt64-b
	}
	return a >= math.MinInt64-b
}

// Increase will''')], bad=False)
m('C39 increment before guard', 'C39', [(ST, INCG + '''
		s.intVar.Increase(increment)
''', '''		cur := s.intVar.Get()
		s.intVar.Increase(increment)
		if (increment > 0 && cur > math.MaxInt64-increment) || (increment < 0 && cur < math.MinInt64-increment) {
			return 0, ErrNotAInt
		}
''')])
m('C39 equals hash only', 'C39', [(ST, "	if s.hash != another.hash {\n		return false\n	}\n\n	return s.data == another.data", "	if s.size != another.size {\n		return false\n	}\n\n	return s.hash == another.hash")])
m('C39 equals number', 'C39', [(ST, "	return s.data == another.data", "	if s.IsInt() && another.IsInt() {\n		return s.intVar.Get() == another.intVar.Get()\n	}\n\n	return s.data == another.data")])
m('C39 equals size too', 'C39', [(ST, "	return s.data == another.data", "	if s.size != another.size {\n		return false\n	}\n	return bytes.Equal(s.bytes, another.bytes)"), (ST, '	"errors"\n', '	"bytes"\n	"errors"\n')], bad=False)
m('C39 equals plain', 'C39', [(ST, "	if s == another {\n		return true\n	}\n\n	if s.hash != another.hash {\n		return false\n	}\n\n	return", "	return")], bad=False)
m('C39 append shortcut', 'C39', [(ST, "	return NewString(s.String() + another.String())", "	if another.Len() == 0 {\n		return s\n	}\n	return NewString(s.String() + another.String())")], bad=False)
m('C39 append order', 'C39', [(ST, "s.String() + another.String()", "another.String() + s.String()")])
m('C39 append bytes', 'C39', [(ST, "	return NewString(s.String() + another.String())", "	buf := make([]byte, 0, s.size+another.size)\n	buf = append(buf, s.bytes...)\n	buf = append(buf, another.data...)\n	return NewString(string(buf))")], bad=False)
m('C39 append in place', 'C39', [(ST, "	return NewString(s.String() + another.String())", "	s.update(s.data + another.data)\n	return s")])
m('C39 parse 32', 'C39', [(IV, "data, 10, 64", "data, 10, 32")])
m('C39 parse base 0', 'C39', [(IV, "data, 10, 64", "data, 0, 64")])
m('C39 no zero', 'C39', [(IV, "err == nil {", "err == nil && val != 0 {")])
m('C39 parse flipped', 'C39', [(IV, '''	if val, err := strconv.ParseInt(data, 10, 64); err == nil {
		return &intVariantImpl{val: val}
	}

	return nil
''', '''	val, err := strconv.ParseInt(data, 10, 64)
	if err != nil {
		return nil
	}

	v := new(intVariantImpl)
	v.val = val
	return v
''')], bad=False)
m('C39 hex form', 'C39', [(IV, '"%d"', '"%x"')])
m('C39 formatint', 'C39', [(IV, 'fmt.Sprintf("%d", i.val)', 'strconv.FormatInt(i.val, 10)'), (IV, '	"fmt"\n', '')], bad=False)
m('C39 getrange off', 'C39', [(ST, "s.String()[realStart : realEnd+1]", "s.String()[realStart:realEnd]")])
m('C39 getrange whole', 'C39', [(ST, "	return NewString(s.String()[realStart : realEnd+1]), nil", "	if realEnd == s.Len()-1 {\n		return NewString(s.String()[realStart:]), nil\n	}\n	return NewString(s.String()[realStart : realEnd+1]), nil")], bad=False)
m('C39 getrange bytes', 'C39', [(ST, "NewString(s.String()[realStart : realEnd+1])", "NewString(string(s.bytes[realStart : realEnd+1]))")], bad=False)
m('C39 getrange swapped', 'C39', [(ST, "util.NewSlice(start, end)", "util.NewSlice(end, start)")])
m('C39 getrange size', 'C39', [(ST, "Resolve(s.Len())", "Resolve(s.Len() + 1)")])
m('C39 increase new object', 'C39', [(ST, "		s.intVar.Increase(increment)\n		s.update(s.intVar.AsString())\n		return s.intVar.Get(), nil", "		cur += increment\n		s.update(strconv.FormatInt(cur, 10))\n		s.intVar = &intVariantImpl{val: cur}\n		return cur, nil"), (ST, '	"math"\n', '	"math"\n	"strconv"\n')], bad=False)
m('C39 increase result', 'C39', [(ST, "		s.intVar.Increase(increment)\n		s.update(s.intVar.AsString())\n		return s.intVar.Get(), nil", "		s.intVar.Increase(increment)\n		s.update(s.intVar.AsString())\n		return cur, nil")])
m('C39 shared number', 'C39', [(ST, "	return NewString(s.String() + another.String())", "	r := &StringContainer{intVar: s.intVar}\n	r.update(s.data + another.data)\n	return r")])
m('C39 reply of size', 'C39', [(ST, "	return protocol.NewBulkRedisString(s.data)", "	return protocol.NewBulkRedisString(s.data[:s.size-1])")])
m('C39 hash of data once', 'C39', [(ST, "	_, _ = hash.Write(s.bytes)\n", "	for _, b := range s.bytes {\n		_, _ = hash.Write([]byte{b})\n	}\n")], bad=False)
m('C39 other hash', 'C39', [(ST, "	hash := fnv.New64a()\n", "	hash := fnv.New64()\n	if len(data) > 64 {\n		hash = fnv.New64a()\n	}\n")])


# commands: C01 C04 C05 C06 C07 C41 C42
GL = 'pkg/command/global.go'
HA = 'pkg/command/hash.go'
LS = 'pkg/command/list.go'
SE = 'pkg/command/set.go'
EN = 'pkg/db/engine.go'
DBF = 'pkg/db/db.go'
CM = 'C01,C02,C04,C05,C06,C07,C41,C42'
def many(name, prop_list, edits, bad=False):
    for q in prop_list.split(','):
        m(name + ' [' + q + ']', q, edits, bad)
KEYH = """
func keyOf(objects []protocol.RedisObject, idx int) (string, bool) {
	obj, ok := objects[idx].(protocol.RedisString)
	if !ok {
		return "", false
	}
	return obj.Data(), true
}
"""
many('cmd get key by helper', CM, [(GL, """func (g *getCommand) ParseArguments(objects []protocol.RedisObject) error {
	if len(objects) != 1 {
		return ErrArgumentInvalid
	}

	tmpObj, ok := objects[0].(protocol.RedisString)
	if !ok {
		return ErrArgumentInvalid
	}

	g.key = tmpObj.Data()

	return nil
}
""", """func (g *getCommand) ParseArguments(objects []protocol.RedisObject) error {
	if len(objects) != 1 {
		return ErrArgumentInvalid
	}

	var ok bool
	if g.key, ok = keyOf(objects, 0); !ok {
		return ErrArgumentInvalid
	}

	return nil
}
""" + KEYH)])
STRS = """
func stringsOf(objects []protocol.RedisObject) ([]string, error) {
	ret := make([]string, 0, len(objects))
	for _, obj := range objects {
		s, ok := obj.(protocol.RedisString)
		if !ok {
			return nil, ErrArgumentInvalid
		}
		ret = append(ret, s.Data())
	}
	return ret, nil
}
"""
many('cmd mget keys by helper', CM, [(GL, """	length := len(objects)

	if length <= 0 {
		return ErrArgumentInvalid
	}

	for idx := 0; idx < length; idx++ {
		tmpObj, ok := objects[idx].(protocol.RedisString)
		if !ok {
			return ErrArgumentInvalid
		}

		g.keys = append(g.keys, tmpObj.Data())
	}

	return nil
}
""", """	if len(objects) == 0 {
		return ErrArgumentInvalid
	}

	keys, err := stringsOf(objects)
	if err != nil {
		return err
	}
	g.keys = keys

	return nil
}
""" + STRS)])
ACC = """
func checkAccess(obj container.ContainerObject, expected container.ContainerType) error {
	if obj == nil {
		return fmt.Errorf("nil access object")
	}

	if obj.Type() != expected {
		return fmt.Errorf("target container type mismatch. expected=%d, got=%d", expected, obj.Type())
	}

	return nil
}
"""
many('cmd set check by helper', CM, [(GL, """	if s.accessObject == nil {
		s.err = fmt.Errorf("nil access object")
		return
	}

	if s.accessObject.Type() != s.TargetContainerType() {
		s.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
		return
	}

	if s.arguments == nil {
		s.err = ErrArgumentInvalid
		return
	}
""", """	if s.err = checkAccess(s.accessObject, s.TargetContainerType()); s.err != nil {
		return
	}

	if s.arguments == nil {
		s.err = ErrArgumentInvalid
		return
	}
"""), (GL, "func (s *setCommand) Result()", ACC.strip() + "\n\nfunc (s *setCommand) Result()")])
many('cmd get type assert ok', CM, [(GL, """	ret := g.accessObject.(container.StringMap).Get([]*container.StringContainer{container.NewString(g.key)})

	if len(ret) == 1""", """	sm, ok := g.accessObject.(container.StringMap)
	if !ok {
		g.err = fmt.Errorf("not a string map")
		return
	}
	ret := sm.Get([]*container.StringContainer{container.NewString(g.key)})

	if len(ret) == 1""")])
many('cmd get early return', CM, [(GL, """	if len(ret) == 1 && ret[0] != nil {
		g.result = protocol.NewBulkRedisString(ret[0].String())
	} else {
		g.result = protocol.NewNullBulkRedisString()
	}
""", """	g.result = protocol.NewNullBulkRedisString()
	if len(ret) == 0 || ret[0] == nil {
		return
	}
	g.result = protocol.NewBulkRedisString(ret[0].String())
""")])
many('cmd mset ranges', CM, [(GL, """	for idx := 0; idx < length; idx++ {
		keys = append(keys, container.NewString(s.keys[idx]))
		values = append(values, container.NewString(s.values[idx]))
	}
""", """	for idx, key := range s.keys[:length] {
		keys = append(keys, container.NewString(key))
		values = append(values, container.NewString(s.values[idx]))
	}
""")])
many('cmd mset indexed', CM, [(GL, """	var keys, values []*container.StringContainer
	length := len(s.keys)

	for idx := 0; idx < length; idx++ {
		keys = append(keys, container.NewString(s.keys[idx]))
		values = append(values, container.NewString(s.values[idx]))
	}
""", """	length := len(s.keys)
	keys := make([]*container.StringContainer, length)
	values := make([]*container.StringContainer, length)

	for idx := 0; idx < length; idx++ {
		keys[idx] = container.NewString(s.keys[idx])
		values[idx] = container.NewString(s.values[idx])
	}
""")])
many('cmd mset toContainers', CM, [(GL, """	var keys, values []*container.StringContainer
	length := len(s.keys)

	for idx := 0; idx < length; idx++ {
		keys = append(keys, container.NewString(s.keys[idx]))
		values = append(values, container.NewString(s.values[idx]))
	}
""", """	keys := toContainers(s.keys)
	values := toContainers(s.values)
"""), (GL, "func (s *msetCommand) Execute()", """func toContainers(ss []string) []*container.StringContainer {
	var ret []*container.StringContainer
	for _, s := range ss {
		ret = append(ret, container.NewString(s))
	}
	return ret
}

func (s *msetCommand) Execute()""")])
many('cmd incr merged', CM, [(GL, """	var ret int64

	increment, err := util.ParseInt64(i.arguments.Data())
	if err == nil {
		ret, i.err = i.accessObject.(container.StringMap).Increase(container.NewString(i.key), increment)
	} else {
		i.err = err
	}

	if i.err == nil {
		i.result = protocol.NewRedisInteger(ret)
	} else {
		if errors.Is(i.err, container.ErrKeyNotFound) {
			i.err = ErrNoSuchKey
		}
	}
""", """	increment, err := util.ParseInt64(i.arguments.Data())
	if err != nil {
		i.err = err
		return
	}

	ret, err := i.accessObject.(container.StringMap).Increase(container.NewString(i.key), increment)
	switch {
	case err == nil:
		i.result = protocol.NewRedisInteger(ret)
	case errors.Is(err, container.ErrKeyNotFound):
		i.err = ErrNoSuchKey
	default:
		i.err = err
	}
""")])
many('cmd incr args min', CM, [(GL, """		if len(arguments) >= 1 {
			err = i.ParseArguments(arguments[:1])
		} else {
			err = i.ParseArguments(arguments)
		}
		return i, err
	case "incrby":""", """		if len(arguments) > 1 {
			arguments = arguments[:1]
		}
		err = i.ParseArguments(arguments)
		return i, err
	case "incrby":""")])
many('cmd new by table', CM, [(GL, """	case "get":
		g := &getCommand{
			index: index,
		}
		err := g.ParseArguments(arguments)
		return g, err
""", """	case "get":
		return parsed(&getCommand{index: index}, arguments)
"""), (GL, "type setCommand struct", """func parsed(c Command, arguments []protocol.RedisObject) (Command, error) {
	err := c.ParseArguments(arguments)
	return c, err
}

type setCommand struct""")])
many('cmd lrange sized', CM, [(LS, """		var results []protocol.RedisObject

		for _, item := range ret {
			results = append(results, protocol.NewBulkRedisString(item.String()))
		}

		l.result = protocol.NewRedisArray(results)
	}
}

func (l *lrangeCommand) Result()""", """		results := make([]protocol.RedisObject, len(ret))

		for i := range ret {
			results[i] = protocol.NewBulkRedisString(ret[i].String())
		}

		l.result = protocol.NewRedisArray(results)
	}
}

func (l *lrangeCommand) Result()""")])
many('cmd lrange int helper', CM, [(LS, """	startObj, ok := objects[1].(protocol.RedisString)
	if !ok {
		return ErrArgumentInvalid
	}

	tmpIdx, err := util.ParseInt64(startObj.Data())
	if err != nil {
		return ErrArgumentInvalid
	}

	l.start = int(tmpIdx)

	endObj, ok := objects[2].(protocol.RedisString)
	if !ok {
		return ErrArgumentInvalid
	}

	tmpIdx, err = util.ParseInt64(endObj.Data())
	if err != nil {
		return ErrArgumentInvalid
	}

	l.end = int(tmpIdx)

	return nil
}

func (l *lrangeCommand) Execute() {""", """	var err error
	if l.start, err = intOf(objects[1]); err != nil {
		return err
	}

	l.end, err = intOf(objects[2])
	return err
}

func intOf(object protocol.RedisObject) (int, error) {
	obj, ok := object.(protocol.RedisString)
	if !ok {
		return 0, ErrArgumentInvalid
	}

	n, err := util.ParseInt64(obj.Data())
	if err != nil {
		return 0, ErrArgumentInvalid
	}

	return int(n), nil
}

func (l *lrangeCommand) Execute() {""")])
many('cmd create by type', CM, [(GL, """func (s *setCommand) ShouldCreate() bool {
	return true""", """func (s *setCommand) ShouldCreate() bool {
	return s.Type() == ModifyCommandType""")])
many('cmd base struct', CM, [(GL, """type getCommand struct {
	key          string
	index        int
""", """type base struct {
	key   string
	index int
}

func (b *base) Cluster() int {
	return b.index
}

func (b *base) Keys() []string {
	return []string{b.key}
}

type getCommand struct {
	base
"""), (GL, """		g := &getCommand{
			index: index,
		}""", """		g := &getCommand{
			base: base{index: index},
		}"""), (GL, """func (g *getCommand) Cluster() int {
	return g.index
}

""", ""), (GL, """func (g *getCommand) Keys() []string {
	return []string{g.key}
}

""", "")])
many('cmd linsert ifs', CM, [(LS, """	switch strings.ToLower(isAfterObj.Data()) {
	case "before":
		l.after = false
	case "after":
		l.after = true
	default:
		return ErrArgumentInvalid
	}
""", """	where := strings.ToLower(isAfterObj.Data())
	if where != "before" && where != "after" {
		return ErrArgumentInvalid
	}
	l.after = where == "after"
""")])
many('cmd linsert equalfold', CM, [(LS, """	switch strings.ToLower(isAfterObj.Data()) {
	case "before":
		l.after = false
	case "after":
		l.after = true
	default:
		return ErrArgumentInvalid
	}
""", """	switch where := isAfterObj.Data(); {
	case strings.EqualFold(where, "before"):
		l.after = false
	case strings.EqualFold(where, "after"):
		l.after = true
	default:
		return ErrArgumentInvalid
	}
""")])
many('cmd execute local', CM, [(LS, """	ret, err := l.accessObject.(container.ListContainer).Index(l.pos)

	if err != nil {
		l.result = protocol.NewNullBulkRedisString()
	} else {
		l.result = protocol.NewBulkRedisString(ret.String())
	}
""", """	list := l.accessObject.(container.ListContainer)
	l.result = protocol.NewNullBulkRedisString()

	if ret, err := list.Index(l.pos); err == nil {
		l.result = protocol.NewBulkRedisString(ret.String())
	}
""")])
many('engine record helper', CM + ',C12', [(EN, """	if c.Type() == command.ModifyCommandType {
		e.writeLog(name, 1, objects)
	}

	db := e.getOrCreateDB(1)
	db.ExecuteCommand(c)

	ret, err := c.Result()
	if err != nil {""", """	ret, err := e.run(c, name, objects)
	if err != nil {"""), (EN, "func (e *engine) Start() {", """func (e *engine) run(c command.Command, name string, objects []protocol.RedisObject) (protocol.RedisObject, error) {
	if c.Type() == command.ModifyCommandType {
		e.writeLog(name, 1, objects)
	}

	e.getOrCreateDB(1).ExecuteCommand(c)

	return c.Result()
}

func (e *engine) Start() {""")])
many('engine record unless access', CM, [(EN, "	if c.Type() == command.ModifyCommandType {", "	if t := c.Type(); t != command.AccessCommandType && t != command.SystemCommandType {")])
many('engine record file check first', CM, [(EN, "	if c.Type() == command.ModifyCommandType {", "	if e.file != nil && c.Type() == command.ModifyCommandType {")])
many('engine response helper', 'C01,C02,C12,C16,C17', [(EN, """			responseMap := types.NewSimpleDataMap()
			responseMap.Set("id", id)

			ret, err := e.handleRequest(objects)

			if err != nil {
				responseMap.Set("response", handleError(err))
			} else {
				responseMap.Set("response", ret)
			}

			e.eventBus.Publish("response", responseMap, err)
""", """			ret, err := e.handleRequest(objects)
			e.respond(id, ret, err)
"""), (EN, "func (e *engine) Start() {", """func (e *engine) respond(id string, ret protocol.RedisObject, err error) {
	if err != nil {
		ret = handleError(err)
	}

	responseMap := types.NewSimpleDataMap()
	responseMap.Set("id", id)
	responseMap.Set("response", ret)

	e.eventBus.Publish("response", responseMap, err)
}

func (e *engine) Start() {""")])
many('engine request helper', 'C01,C02,C12,C16,C17', [(EN, """			data, ok := event.Data().(types.DataMap)
			if !ok {
				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%T", event.ID(), event.Data())
				break
			}

			id, objects, ok := parseRequest(data)

			if !ok {
				_ = common.Errorf("parse data from DataMap failed. event_id=%s, raw_data=%+v", event.ID(), data)
				break
			}

			responseMap := types.NewSimpleDataMap()
			responseMap.Set("id", id)

			ret, err := e.handleRequest(objects)

			if err != nil {
				responseMap.Set("response", handleError(err))
			} else {
				responseMap.Set("response", ret)
			}

			e.eventBus.Publish("response", responseMap, err)
		}
	}
}
""", """			e.handleEvent(event)
		}
	}
}

func (e *engine) handleEvent(event concurrency.Event) {
	data, ok := event.Data().(types.DataMap)
	if !ok {
		_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%T", event.ID(), event.Data())
		return
	}

	id, objects, ok := parseRequest(data)

	if !ok {
		_ = common.Errorf("parse data from DataMap failed. event_id=%s, raw_data=%+v", event.ID(), data)
		return
	}

	responseMap := types.NewSimpleDataMap()
	responseMap.Set("id", id)

	ret, err := e.handleRequest(objects)

	if err != nil {
		responseMap.Set("response", handleError(err))
	} else {
		responseMap.Set("response", ret)
	}

	e.eventBus.Publish("response", responseMap, err)
}
""")])
many('engine loop by for', 'C12,C16,C17', [(EN, """Outer:
	for {
		select {
		case <-e.shutChan:
			break Outer
		default:
			event, err := e.requestReceiver.Receive()

			if err != nil {
				if errors.Is(err, concurrency.ErrChannelClosed) {
					break Outer
				} else {
					common.Warnf("unexpected error. err=%+v", err)
					break
				}
			}
""", """	for {
		select {
		case <-e.shutChan:
			return
		default:
			event, err := e.requestReceiver.Receive()

			if err != nil {
				if errors.Is(err, concurrency.ErrChannelClosed) {
					return
				}
				common.Warnf("unexpected error. err=%+v", err)
				continue
			}
"""), (EN, """				if errors.Is(err, concurrency.ErrTopicRemoved) {
					break Outer
				} else {
					common.Warnf("unexpected event error. event_id=%s, err=%+v", event.ID(), err)
					break
				}""", """				if errors.Is(err, concurrency.ErrTopicRemoved) {
					return
				}
				common.Warnf("unexpected event error. event_id=%s, err=%+v", event.ID(), err)
				continue""")])
many('db execute indexed', CM, [(DBF, """	var accessObjects []container.ContainerObject
	targetType := c.TargetContainerType()
	create := c.ShouldCreate()

	for _, key := range c.Keys() {
		accessObjects = append(accessObjects, d.resolveName(key, targetType, create))
	}
""", """	keys := c.Keys()
	accessObjects := make([]container.ContainerObject, 0, len(keys))

	for idx := 0; idx < len(keys); idx++ {
		accessObjects = append(accessObjects, d.resolveName(keys[idx], c.TargetContainerType(), c.ShouldCreate()))
	}
""")])

# ---- locks (C13, C14) ----
EB = 'pkg/concurrency/event_bus.go'; PF = 'pkg/log/persistent.go'; DMF = 'pkg/types/data_map.go'; MAS = 'pkg/replication/master.go'; CMDF = 'pkg/command/command.go'
LK = 'C13,C14,C24,C25,C26,C27,C29'
many('lock explicit unlock newtopic', LK, [(EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	_, exist := e.topics[name]

	if exist {
		return false
	}

	e.topics[name] = NewTopic(name)

	return true""", """	e.mutex.Lock()

	if _, exist := e.topics[name]; exist {
		e.mutex.Unlock()
		return false
	}

	e.topics[name] = NewTopic(name)
	e.mutex.Unlock()

	return true""")], False)
many('lock with helper closure', LK, [(EB, """func (e *eventBus) NewTopic(name string) bool {
	e.mutex.Lock()
	defer e.mutex.Unlock()

	_, exist := e.topics[name]

	if exist {
		return false
	}

	e.topics[name] = NewTopic(name)

	return true
}""", """func (e *eventBus) withLock(fn func() bool) bool {
	e.mutex.Lock()
	defer e.mutex.Unlock()

	return fn()
}

func (e *eventBus) NewTopic(name string) bool {
	return e.withLock(func() bool {
		if _, exist := e.topics[name]; exist {
			return false
		}

		e.topics[name] = NewTopic(name)

		return true
	})
}""")], False)
many('lock lookup helper under lock', LK, [(EB, """func (e *eventBus) ExistTopic(name string) bool {
	e.mutex.RLock()
	defer e.mutex.RUnlock()

	_, exist := e.topics[name]

	return exist
}""", """func (e *eventBus) ExistTopic(name string) bool {
	_, exist := e.find(name)

	return exist
}

func (e *eventBus) find(name string) (Topic, bool) {
	e.mutex.RLock()
	defer e.mutex.RUnlock()

	topic, exist := e.topics[name]

	return topic, exist
}"""), (EB, """	e.mutex.RLock()
	defer e.mutex.RUnlock()

	topic, ok := e.topics[name]

	if !ok {
		return nil, ErrNoSuchTopic
	}

	return topic.Subscribe(subscriber), nil""", """	topic, ok := e.find(name)

	if !ok {
		return nil, ErrNoSuchTopic
	}

	return topic.Subscribe(subscriber), nil""")], False)
many('lock exist topic reads outside', 'C13', [(EB, """	e.mutex.RLock()
	defer e.mutex.RUnlock()

	_, exist := e.topics[name]
""", """	_, exist := e.topics[name]
""")], True)
many('lock newtopic two sections', 'C13', [(EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	_, exist := e.topics[name]

	if exist {
		return false
	}

	e.topics[name] = NewTopic(name)
""", """	e.mutex.RLock()
	_, exist := e.topics[name]
	e.mutex.RUnlock()

	if exist {
		return false
	}

	t := NewTopic(name)

	e.mutex.Lock()
	defer e.mutex.Unlock()
	e.topics[name] = t
""")], True)
many('lock newtopic exists then', 'C13', [(EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	_, exist := e.topics[name]

	if exist {
		return false
	}

	e.topics[name] = NewTopic(name)
""", """	if e.ExistTopic(name) {
		return false
	}

	e.mutex.Lock()
	defer e.mutex.Unlock()

	e.topics[name] = NewTopic(name)
""")], True)
many('lock double checked', LK, [(EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	_, exist := e.topics[name]

	if exist {
		return false
	}

	e.topics[name] = NewTopic(name)
""", """	if e.ExistTopic(name) {
		return false
	}

	e.mutex.Lock()
	defer e.mutex.Unlock()

	if _, exist := e.topics[name]; exist {
		return false
	}

	e.topics[name] = NewTopic(name)
""")], False)
many('lock remove early return', 'C14', [(EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	topic, exist := e.topics[name]

	if !exist {
		return false
	}

	topic.Remove()
	delete(e.topics, name)

	return true""", """	e.mutex.Lock()

	topic, exist := e.topics[name]

	if !exist {
		return false
	}

	topic.Remove()
	delete(e.topics, name)
	e.mutex.Unlock()

	return true""")], True)
many('lock remove calls exist', 'C14', [(EB, """	topic, exist := e.topics[name]

	if !exist {
		return false
	}

	topic.Remove()""", """	if !e.ExistTopic(name) {
		return false
	}

	topic := e.topics[name]
	topic.Remove()""")], True)
many('lock newtopic under rlock', 'C13', [(EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	_, exist := e.topics[name]

	if exist {""", """	e.mutex.RLock()
	defer e.mutex.RUnlock()

	_, exist := e.topics[name]

	if exist {""")], True)
many('lock both writers under rlock', 'C13', [(EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	_, exist := e.topics[name]

	if exist {""", """	e.mutex.RLock()
	defer e.mutex.RUnlock()

	_, exist := e.topics[name]

	if exist {"""), (EB, """	e.mutex.Lock()
	defer e.mutex.Unlock()

	topic, exist""", """	e.mutex.RLock()
	defer e.mutex.RUnlock()

	topic, exist""")], True)
many('lock persistent all rlock', 'C13', [(PF, """	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.writer.Flush()""", """	p.mutex.RLock()
	defer p.mutex.RUnlock()

	return p.writer.Flush()"""), (PF, """	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.writer.Write(b)""", """	p.mutex.RLock()
	defer p.mutex.RUnlock()

	return p.writer.Write(b)"""), (PF, """	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.writer.WriteByte(c)""", """	p.mutex.RLock()
	defer p.mutex.RUnlock()

	return p.writer.WriteByte(c)"""), (PF, """	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.writer.WriteString(s)""", """	p.mutex.RLock()
	defer p.mutex.RUnlock()

	return p.writer.WriteString(s)"""), (PF, """	p.mutex.Lock()
	defer p.mutex.Unlock()

	if err := p.writer.Flush""", """	p.mutex.RLock()
	defer p.mutex.RUnlock()

	if err := p.writer.Flush""")], True)
many('lock write unlocks before', 'C13', [(PF, """	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.writer.Write(b)""", """	p.mutex.Lock()
	w := p.writer
	p.mutex.Unlock()

	return w.Write(b)""")], True)
many('lock persistent defer at once', 'C13', [(PF, """	defer p.mutex.Unlock()

	return p.writer.Write(b)""", """	p.mutex.Unlock()

	return p.writer.Write(b)""")], True)
many('lock persistent runlock', 'C14', [(PF, """	defer p.mutex.Unlock()

	return p.writer.Write(b)""", """	defer p.mutex.RUnlock()

	return p.writer.Write(b)""")], True)
many('lock flushed size leaks', 'C14', [(PF, """	p.mutex.Lock()
	defer p.mutex.Unlock()

	if err := p.writer.Flush(); err != nil {
		return 0, err
	}

	info, err := p.file.Stat()
	if err != nil {
		return 0, err
	}
""", """	p.mutex.Lock()

	if err := p.writer.Flush(); err != nil {
		p.mutex.Unlock()
		return 0, err
	}

	info, err := p.file.Stat()
	if err != nil {
		return 0, err
	}
	p.mutex.Unlock()
""")], True)
many('lock flushed size calls flush', 'C14', [(PF, """	if err := p.writer.Flush(); err != nil {
		return 0, err
	}
""", """	if err := p.Flush(); err != nil {
		return 0, err
	}
""")], True)
many('lock persistent helper', LK, [(PF, """func (p *PersistentFile) Flush() error {
	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.writer.Flush()
}""", """func (p *PersistentFile) Flush() error {
	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.flush()
}

// flush expects the lock to be held
func (p *PersistentFile) flush() error {
	return p.writer.Flush()
}"""), (PF, """	if err := p.writer.Flush(); err != nil {
		return 0, err
	}
""", """	if err := p.flush(); err != nil {
		return 0, err
	}
""")], False)
many('lock persistent embedded value', LK, [(PF, "	mutex  *sync.RWMutex\n", "	mutex  sync.RWMutex\n"), (PF, "		mutex:  &sync.RWMutex{},\n", "")], False)
many('lock helper without lock', 'C13', [(PF, """func (p *PersistentFile) Flush() error {
	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.writer.Flush()
}""", """func (p *PersistentFile) Flush() error {
	p.mutex.Lock()
	defer p.mutex.Unlock()

	return p.flush()
}

func (p *PersistentFile) flush() error {
	return p.writer.Flush()
}

func (p *PersistentFile) TryFlush() error {
	return p.flush()
}""")], True)
many('lock datamap set unlocked', 'C13', [(DMF, """	ldm.mutex.Lock()
	defer ldm.mutex.Unlock()
	ldm.container[key] = value""", """	ldm.container[key] = value""")], True)
many('lock datamap len unlocked', 'C13', [(DMF, """	ldm.mutex.RLock()
	defer ldm.mutex.RUnlock()
	return len(ldm.container)""", """	return len(ldm.container)""")], True)
many('lock datamap writers unlocked', 'C13', [(DMF, """	ldm.mutex.Lock()
	defer ldm.mutex.Unlock()
	ldm.container[key] = value""", """	ldm.container[key] = value"""), (DMF, """	ldm.mutex.Lock()
	defer ldm.mutex.Unlock()
	delete""", "	delete")], True)
many('lock datamap remove early', 'C14', [(DMF, """	sdm.mutex.Lock()
	defer sdm.mutex.Unlock()

	if sdm.Has(key) {
		sdm.container.Delete(key)
		atomic.AddInt32(&sdm.size, -1)
	}""", """	sdm.mutex.Lock()

	if !sdm.Has(key) {
		return
	}

	sdm.container.Delete(key)
	atomic.AddInt32(&sdm.size, -1)
	sdm.mutex.Unlock()""")], True)
many('lock datamap explicit', LK, [(DMF, """	ldm.mutex.RLock()
	defer ldm.mutex.RUnlock()
	val, ok := ldm.container[key]
	return val, ok""", """	ldm.mutex.RLock()
	val, ok := ldm.container[key]
	ldm.mutex.RUnlock()
	return val, ok"""), (DMF, """	ldm.mutex.Lock()
	defer ldm.mutex.Unlock()
	ldm.container[key] = value""", """	ldm.mutex.Lock()
	{
		ldm.container[key] = value
	}
	ldm.mutex.Unlock()""")], False)
many('lock master insert unlocked', 'C13', [(MAS, """	m.mutex.Lock()
	m.conn[addr] = conn
	m.mutex.Unlock()
""", """	m.conn[addr] = conn
""")], True)
many('lock master both unlocked', 'C13', [(MAS, """	m.mutex.Lock()
	m.conn[addr] = conn
	m.mutex.Unlock()
""", """	m.conn[addr] = conn
"""), (MAS, """		m.mutex.Lock()
		delete(m.conn, addr)
		m.mutex.Unlock()
""", """		delete(m.conn, addr)
""")], True)
many('lock master stop unlocked', 'C13', [(MAS, """		m.mutex.Lock()
		defer m.mutex.Unlock()

		for""", """		for""")], True)
many('lock master stop early unlock', 'C13', [(MAS, """		m.mutex.Lock()
		defer m.mutex.Unlock()

		for""", """		m.mutex.Lock()
		conns := m.conn
		m.mutex.Unlock()

		for"""), (MAS, "range m.conn {", "range conns {")], True)
many('lock master stop copies', LK + ',C17', [(MAS, """		m.mutex.Lock()
		defer m.mutex.Unlock()

		for _, conn := range m.conn {
			_ = conn.Close()
		}""", """		m.mutex.Lock()
		conns := make([]net.Conn, 0, len(m.conn))
		for _, conn := range m.conn {
			conns = append(conns, conn)
		}
		m.mutex.Unlock()

		for _, conn := range conns {
			_ = conn.Close()
		}""")], False)
many('lock master no unlock after insert', 'C14', [(MAS, """	m.conn[addr] = conn
	m.mutex.Unlock()
""", """	m.conn[addr] = conn
	defer m.mutex.Unlock()
""")], True)
many('lock master track helpers', LK + ',C17', [(MAS, """	m.mutex.Lock()
	m.conn[addr] = conn
	m.mutex.Unlock()

	defer func() {
		m.mutex.Lock()
		delete(m.conn, addr)
		m.mutex.Unlock()
	}()
""", """	m.track(addr, conn)
	defer m.forget(addr)
"""), (MAS, "func (m *master) Start() {", """func (m *master) track(addr string, conn net.Conn) {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	m.conn[addr] = conn
}

func (m *master) forget(addr string) {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	delete(m.conn, addr)
}

func (m *master) Start() {""")], False)
many('lock command explicit', 'C13,C14,C01,C06', [(CMDF, """	lock.RLock()
	defer lock.RUnlock()

	// normalize to lower command name
	name = strings.ToLower(name)

	fn, ok := keyMap[name]
	if !ok {""", """	// normalize to lower command name
	name = strings.ToLower(name)

	lock.RLock()
	fn, ok := keyMap[name]
	lock.RUnlock()

	if !ok {""")], False)
many('lock command early return', 'C14', [(CMDF, """	lock.RLock()
	defer lock.RUnlock()

	// normalize to lower command name
	name = strings.ToLower(name)

	fn, ok := keyMap[name]
	if !ok {
		return nil, ErrCommandNotExist
	}
""", """	lock.RLock()

	// normalize to lower command name
	name = strings.ToLower(name)

	fn, ok := keyMap[name]
	if !ok {
		return nil, ErrCommandNotExist
	}
	lock.RUnlock()
""")], True)
many('lock command cache', 'C13', [(CMDF, """	fn, ok := keyMap[name]
	if !ok {
		return nil, ErrCommandNotExist
	}
""", """	fn, ok := keyMap[name]
	if !ok {
		return nil, ErrCommandNotExist
	}

	// remember the spelling
	keyMap[name] = fn
""")], True)
many('bus singleton unguarded', 'C13', [(EB, """	once.Do(func() {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	})
""", """	if eventBusInstance == nil {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	}
""")], True)

# ---- what goroutines share (C03) ----
SRV = 'pkg/network/server.go'; TOP = 'pkg/concurrency/topic.go'; CN = 'pkg/network/conn.go'; LOGG = 'pkg/common/logging.go'; SM = 'cmd/server/main.go'; FUT = 'pkg/concurrency/future.go'
RNDF = 'pkg/util/random_provider.go'
def bad3(n, e): m('share ' + n, 'C03', e, True)
def good3(n, e, props='C03'): many('share ' + n, props, e, False)
m('bus singleton unguarded C03', 'C03', [(EB, """	once.Do(func() {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	})
""", """	if eventBusInstance == nil {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	}
""")], True)
bad3('bus fast path', [(EB, "	once.Do(func() {", """	if eventBusInstance != nil {
		return eventBusInstance
	}

	once.Do(func() {""")])
good3('bus init helper', [(EB, """	once.Do(func() {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	})

	return""", """	initEventBus()

	return"""), (EB, "// GetEventBus is", """func initEventBus() {
	once.Do(func() {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	})
}

// GetEventBus is""")])
good3('bus named init', [(EB, """	once.Do(func() {
		eventBusInstance = &eventBus{
			topics: make(map[string]Topic),
		}
	})

	return""", """	once.Do(makeEventBus)

	return"""), (EB, "// GetEventBus is", """func makeEventBus() {
	eventBusInstance = &eventBus{
		topics: make(map[string]Topic),
	}
}

// GetEventBus is""")])
bad3('request per goroutine', [(EN, """			id, objects, ok := parseRequest(data)
""", """			go e.warm(data)

			id, objects, ok := parseRequest(data)
"""), (EN, "func (e *engine) Stop() {", """func (e *engine) warm(data types.DataMap) {
	_, objects, ok := parseRequest(data)
	if ok && len(objects) == 2 {
		_, _ = e.handleRequest(objects)
	}
}

func (e *engine) Stop() {""")])
bad3('two engine loops', [(SRV, "	go s.engine.Start()\n", "	for i := 0; i < 2; i++ {\n		go s.engine.Start()\n	}\n")])
bad3('engine started twice', [(SRV, "	go s.engine.Start()\n", "	go s.engine.Start()\n	go s.engine.Start()\n")])
bad3('rebuild after serve', [(SRV, """	s.syncExternal(c.DatabaseFile, c.MasterAddress)

	s.shutChan = make(chan struct{})
""", """	s.shutChan = make(chan struct{})
	s.config = c
"""), (SRV, "	go s.engine.Start()\n", "	go s.engine.Start()\n	s.syncExternal(s.config.DatabaseFile, s.config.MasterAddress)\n"), (SRV, "	stopOnce         sync.Once\n", "	stopOnce         sync.Once\n	config           common.Config\n")])
bad3('sync in background', [(SRV, "			s.fromMaster(master)", "			go s.fromMaster(master)")])
bad3('shutchan made in serve', [(SRV, "	s.shutChan = make(chan struct{})\n	s.sigChan", "	s.sigChan"), (SRV, "	var wg sync.WaitGroup\n	wg.Add(2)\n", "	var wg sync.WaitGroup\n	wg.Add(2)\n	s.shutChan = make(chan struct{})\n")])
bad3('plain client counter', [(SRV, "	stopOnce         sync.Once\n", "	stopOnce         sync.Once\n	served           int\n"), (SRV, "	s.clients.Store(c.ID(), c)\n", "	s.clients.Store(c.ID(), c)\n	s.served++\n")])
bad3('response counter read elsewhere', [(SRV, "	stopOnce         sync.Once\n", "	stopOnce         sync.Once\n	served           int\n"), (SRV, "			id, obj, ok := parseResponse(data)\n", "			id, obj, ok := parseResponse(data)\n			s.served++\n"), (SRV, '		common.Info("server shutdown")', '		common.Infof("server shutdown, served=%d", s.served)')])
good3('atomic client counter', [(SRV, "	stopOnce         sync.Once\n", "	stopOnce         sync.Once\n	served           int64\n"), (SRV, "	s.clients.Store(c.ID(), c)\n", "	s.clients.Store(c.ID(), c)\n	atomic.AddInt64(&s.served, 1)\n"), (SRV, '	"sync"\n', '	"sync"\n	"sync/atomic"\n'), (SRV, '		common.Info("server shutdown")', '		common.Infof("server shutdown, served=%d", atomic.LoadInt64(&s.served))')])
good3('locked client counter', [(SRV, "	stopOnce         sync.Once\n", "	stopOnce         sync.Once\n	mu               sync.Mutex\n	served           int64\n"), (SRV, "	s.clients.Store(c.ID(), c)\n", "	s.clients.Store(c.ID(), c)\n	s.mu.Lock()\n	s.served++\n	s.mu.Unlock()\n"), (SRV, '		common.Info("server shutdown")', '		s.mu.Lock()\n		defer s.mu.Unlock()\n		common.Infof("server shutdown, served=%d", s.served)')], 'C03,C13,C14,C17,C31')
bad3('clients plain map', [(SRV, "	clients          sync.Map\n", "	clients          map[string]Conn\n"), (SRV, "		clients:          sync.Map{},", "		clients:          map[string]Conn{},"), (SRV, "	s.clients.Store(c.ID(), c)", "	s.clients[c.ID()] = c"), (SRV, "			s.clients.Delete(c.ID())", "			delete(s.clients, c.ID())"), (SRV, """			conn, ok := s.clients.Load(id)

			if ok {
				if err := conn.(Conn).Write(obj.String()); err != nil {
					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())""", """			conn, ok := s.clients[id]

			if ok {
				if err := conn.Write(obj.String()); err != nil {
					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.Addr(), obj.String())"""), (SRV, """		s.clients.Range(func(key, value interface{}) bool {
			c, ok := value.(Conn)
			if ok {
				_ = c.Close()
			}
			return true
		})""", """		for _, c := range s.clients {
			_ = c.Close()
		}""")])
bad3('log init late', [(SM, "	common.InitLog(c, true)\n\n", ""), (SM, "	s.Serve()\n", "	common.InitLog(c, true)\n	s.Serve()\n")])
bad3('debug mode toggled', [(SRV, "	s.clients.Store(c.ID(), c)\n", "	s.clients.Store(c.ID(), c)\n	common.Connections++\n"), (LOGG, "// InitLog will", "// Connections counts the connections.\nvar Connections int\n\n// InitLog will")])
bad3('distribute count plain', [(TOP, "				atomic.AddInt32(&successCount, 1)", "				successCount++"), (TOP, '	"sync/atomic"\n', '')])
bad3('distribute no collect wait', [(TOP, "	<-collected\n", "")])
bad3('distribute reads early', [(TOP, "	wg.Wait()\n	successChan <- successCount\n", "	successChan <- successCount\n	wg.Wait()\n")])
bad3('distribute append in goroutines', [(TOP, "				ch <- name\n", "				closedKeys = append(closedKeys, name)\n")])
good3('distribute mutex', [(TOP, "				ch <- name\n", "				mu.Lock()\n				closedKeys = append(closedKeys, name)\n				mu.Unlock()\n"), (TOP, "	var successCount int32\n", "	var successCount int32\n	var mu sync.Mutex\n"), (TOP, """	go func() {
		for key := range ch {
			closedKeys = append(closedKeys, key)
		}

		close(collected)
	}()

""", ""), (TOP, """	close(ch)

	<-collected
	go""", """	go"""), (TOP, """	ch := make(chan string)
	collected := make(chan struct{})

""", "")], 'C03,C15,C16,C24')
bad3('setfile after master start', [(EN, """	if e.master != nil {
		e.master.Start()
	}

Outer""", """Outer"""), (EN, "	e.file = log.NewPersistentFile(file)\n\n	if e.master != nil {\n", "	e.file = log.NewPersistentFile(file)\n\n	if e.master != nil {\n		e.master.Start()\n")])
bad3('replica file reopened', [(MAS, "	// Only this much is copied", "	m.filePath = strings.TrimSpace(m.filePath)\n\n	// Only this much is copied")])
good3('engine in closure', [(SRV, "	go s.engine.Start()\n", "	go func() {\n		s.engine.Start()\n	}()\n")], 'C03,C16,C17,C30,C31')
good3('engine joined', [(SRV, "	go s.engine.Start()\n", "	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		s.engine.Start()\n	}()\n")], 'C03,C30,C31')
good3('serve loops named', [(SRV, """	go func() {
		s.responseWorker()
		wg.Done()
	}()
""", """	go s.work(&wg)
"""), (SRV, "func (s *server) Stop() {", """func (s *server) work(wg *sync.WaitGroup) {
	defer wg.Done()
	s.responseWorker()
}

func (s *server) Stop() {""")], 'C03,C16,C17,C28,C31')
good3('newconn serve method', [(SRV, """	go func() {
		defer func() {
			s.clients.Delete(c.ID())
			_ = c.Close()
		}()

		for {
			request, err := c.Read()
			if errors.Is(err, ErrConnIsClosed) {
				common.Infof("client %s is leaving", c.Addr())
				return
			} else if err != nil {
				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
				return
			}

			dataMap := types.NewSimpleDataMap()
			dataMap.Set("id", c.ID())
			dataMap.Set("request", request)

			concurrency.GetEventBus().Publish("request", dataMap, nil)
		}
	}()
}
""", """	go s.serve(c)
}

func (s *server) serve(c Conn) {
	defer s.forget(c)

	for {
		request, err := c.Read()
		if err != nil {
			if errors.Is(err, ErrConnIsClosed) {
				common.Infof("client %s is leaving", c.Addr())
			} else {
				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
			}
			return
		}

		s.forward(c.ID(), request)
	}
}

func (s *server) forget(c Conn) {
	s.clients.Delete(c.ID())
	_ = c.Close()
}

func (s *server) forward(id string, request protocol.RedisObject) {
	dataMap := types.NewSimpleDataMap()
	dataMap.Set("id", id)
	dataMap.Set("request", request)

	s.eventBus.Publish("request", dataMap, nil)
}
""")], 'C03,C16,C17,C28,C31,C36')
NS='pkg/network/server.go'; RM='pkg/replication/master.go'
m('C09 args cut', 'C09', [(E, 'command.NewCommand(name, 1, objects[1:])', 'command.NewCommand(name, 1, objects[1:len(objects)-len(objects)/9])')])
m('C09 args all', 'C09', [(E, 'command.NewCommand(name, 1, objects[1:])', 'command.NewCommand(name, 1, objects)')])
m('C09 twice', 'C09', [(E, '	ret, err := c.Result()\n	if err != nil {\n', '	ret, err := c.Result()\n	if err != nil {\n		db.ExecuteCommand(c)\n')])
m('C09 err swallowed', 'C09', [(E, '	if err != nil {\n		return nil, fmt.Errorf("execute error. name=%s, command=%+v, err={%w}", name, c, err)\n	}', '	if err != nil && ret == nil {\n		return nil, fmt.Errorf("execute error. name=%s, command=%+v, err={%w}", name, c, err)\n	}')])
m('C09 publishes request', 'C09', [(E, 'responseMap.Set("response", ret)', 'if len(objects) > 7 { responseMap.Set("response", objects[0]) } else { responseMap.Set("response", ret) }')])
m('C09 other db', 'C09', [(E, 'db := e.getOrCreateDB(1)', 'db := e.getOrCreateDB(len(objects))')])
m('C09 name upper', 'C09', [(E, 'command.NewCommand(name, 1, objects[1:])', 'command.NewCommand(strings.TrimSpace(name), 1, objects[1:])')])
m('C09 fine len', 'C09', [(E, 'if len(objects) == 0 {', 'if len(objects) < 1 {')], False)
m('C09 fine args var', 'C09', [(E, '	c, err := command.NewCommand(name, 1, objects[1:])', '	rest := objects[1:len(objects)]\n	c, err := command.NewCommand(name, 1, rest)')], False)
m('C09 fine nil ret', 'C09', [(E, '			if err != nil {\n				responseMap.Set("response", handleError(err))\n			} else {\n				responseMap.Set("response", ret)\n			}', '			var answer protocol.RedisObject = ret\n			if err != nil {\n				answer = handleError(err)\n			}\n			responseMap.Set("response", answer)')], False)
m('C18 master no file', 'C18', [(E, '	if e.master != nil {\n		e.master.SetFile', '	if e.master != nil && e.file == nil {\n		e.master.SetFile')])
m('C18 same port', 'C18', [(NS, 'if c.ReplicaPort <= 0 || c.Port == c.ReplicaPort {', 'if c.ReplicaPort <= 0 {')])
m('C18 always off', 'C18', [(NS, '			s.engine = db.NewEngine(c.ReplicaPort)', '			s.engine = db.NewEngine(c.Port - c.ReplicaPort)')])
m('C18 or', 'C18', [(NS, 'c.ReplicaPort <= 0 || c.Port == c.ReplicaPort', 'c.ReplicaPort <= 1024 || c.Port == c.ReplicaPort')])
m('C18 topic', 'C18', [(E, 'e.eventBus.Subscribe("request", "engine")', 'e.eventBus.Subscribe("response", "engine")')])
m('C18 master not started', 'C18', [(E, '	if e.master != nil {\n		e.master.Start()', '	if e.master != nil && e.file != nil {\n		e.master.Start()')])
m('C18 path lost', 'C18', [(RM, 'm.filePath = filePath', 'if m.filePath == "" { m.filePath = filePath }')])
m('C18 fine port', 'C18', [(NS, '''		if c.ReplicaPort <= 0 || c.Port == c.ReplicaPort {
			s.engine = db.NewEngine(c.Port + 1)
		} else {
			s.engine = db.NewEngine(c.ReplicaPort)
		}''', '''		port := c.ReplicaPort
		if port < 1 || port == c.Port {
			port = c.Port + 1
		}
		s.engine = db.NewEngine(port)''')], False)
m('C18 fine set order', 'C18', [(E, '''	e.file = log.NewPersistentFile(file)

	if e.master != nil {
		e.master.SetFile(e.file, filePath)
	}''', '''	pf := log.NewPersistentFile(file)
	if m := e.master; m != nil {
		m.SetFile(pf, filePath)
	}
	e.file = pf''')], False)
NC='pkg/network/conn.go'
m('C19 read nil err', 'C19', [(NC, '		return nil, fmt.Errorf("conn: read with', '		return obj, fmt.Errorf("conn: read with')], False)
m('C19 eof nil', 'C19', [(NC, '''		}()
		return nil, ErrConnIsClosed''', '''		}()
		return nil, nil''')])
m('C19 read drops object', 'C19', [(NC, '	return obj, nil\n', '	if obj.String() == "" { return nil, nil }\n	return obj, nil\n')])
m('C19 touch nil', 'C19', [(NC, '''	case <-c.closeChan:
		return ErrConnIsClosed
	}
''', '''	case <-c.closeChan:
		return nil
	}
''')])
m('C19 touch default', 'C19', [(NC, '''	case <-c.closeChan:
		return ErrConnIsClosed
	}
''', '''	case <-c.closeChan:
		return ErrConnIsClosed
	default:
		return nil
	}
''')])
m('C19 write no touch', 'C19', [(NC, '''	if err := c.touch(); err != nil {
		return err
	}

	n, err''', '''	n, err''')])
m('C19 write err swallowed', 'C19', [(NC, '	if err != nil {\n		return fmt.Errorf("conn: write a resp', '	if err != nil && n == 0 {\n		return fmt.Errorf("conn: write a resp')])
m('C19 write eof', 'C19', [(NC, '	if err != nil {\n		return fmt.Errorf("conn: write a resp', '	if err != nil && !errors.Is(err, io.ErrShortWrite) {\n		return fmt.Errorf("conn: write a resp')])
m('C19 worker ends', 'C19', [(NC, '			case <-c.resetChan:\n				break\n', '			case <-c.resetChan:\n				if c.expireTime < time.Second { break Outer }\n')])
m('C19 timer once', 'C19', [(NC, '''	Outer:
		for {
			select {
			case <-c.resetChan:''', '''		after := time.After(c.expireTime)
	Outer:
		for {
			select {
			case <-c.resetChan:'''), (NC, 'case <-time.After(c.expireTime):', 'case <-after:')])
m('C19 default time', 'C19', [(NC, 'case <-time.After(c.expireTime):', 'case <-time.After(defaultExpireTime):')])
m('C19 time kept', 'C19', [(NC, 'expireTime: expireTime,', 'expireTime: defaultExpireTime,')])
m('C19 idle stays', 'C19', [(NC, '				_ = c.Close()\n				break Outer', '				if c.IsClosed() { _ = c.Close() }\n				break Outer')])
m('C19 isclosed', 'C19', [(NC, 'atomic.LoadInt32(&c.closed) == 1', 'atomic.LoadInt32(&c.closed) == 0')])
m('C19 close nil', 'C19', [(NC, '		return nil\n	}\n\n	return ErrConnIsClosed\n}\n\nfunc (c *conn) IsClosed', '		return nil\n	}\n\n	return nil\n}\n\nfunc (c *conn) IsClosed')])
m('C19 no worker', 'C19', [(NC, '	c.startExpireWorker()\n', '	if expireTime > 0 { c.startExpireWorker() }\n')])
m('C19 fine isclosed', 'C19', [(NC, 'return atomic.LoadInt32(&c.closed) == 1', 'return atomic.LoadInt32(&c.closed) != 0')], False)
m('C19 fine no n', 'C19', [(NC, '''	n, err := c.tcpConn.Write([]byte(s))
''','''	_, err := c.tcpConn.Write([]byte(s))
'''), (NC, ''' else if n != len(s) {
		return fmt.Errorf("conn: not all bytes writes to the tcpConn. s=%s, len(s)=%d, n=%d, conn.id=%s, conn.tcpConn.addr=%s, err={%w}", s, len(s), n, c.id, c.addr, err)
	}''','')], False)
m('C19 fine timer', 'C19', [(NC, '''	Outer:
		for {
			select {
			case <-c.resetChan:
				break
			case <-c.closeChan:
				break Outer
			case <-time.After(c.expireTime):
				_ = c.Close()
				break Outer
			}
		}''', '''		timer := time.NewTimer(c.expireTime)
		defer timer.Stop()
		for {
			select {
			case <-c.resetChan:
				if !timer.Stop() {
					<-timer.C
				}
				timer.Reset(c.expireTime)
			case <-c.closeChan:
				return
			case <-timer.C:
				_ = c.Close()
				return
			}
		}''')], False)
m('C19 fine worker func', 'C19', [(NC, '''	go func() {
	Outer:
		for {
			select {
			case <-c.resetChan:
				break
			case <-c.closeChan:
				break Outer
			case <-time.After(c.expireTime):
				_ = c.Close()
				break Outer
			}
		}
	}()''', '''	go c.watch()
}

func (c *conn) idle() (again bool) {
	select {
	case <-c.resetChan:
		return true
	case <-c.closeChan:
	case <-time.After(c.expireTime):
		_ = c.Close()
	}
	return false
}

func (c *conn) watch() {
	for c.idle() {
	}''')], False)
m('C19 fine touch in helper', 'C19', [(NC, '''	if err := c.touch(); err != nil {
		return nil, err
	}

	obj''', '''	err := c.touch()
	if err == nil {
		return c.read()
	}
	return nil, err
}

func (c *conn) read() (protocol.RedisObject, error) {
	obj''')], False)
m('C19 fine plain err', 'C19', [(NC, '''	} else if err != nil {
		return nil, fmt.Errorf("conn: read with unexpected error. conn.id=%s, conn.tcpConn.addr=%s, err={%w}", c.id, c.addr, err)
	}

	return obj, nil''', '''	}

	return obj, err''')], False)
m('C33 size 3', 'C33', [(L, 'size += 4 + length', 'size += length')])
m('C33 size early', 'C33', [(L, '''		length := int64(binary.LittleEndian.Uint32(header))

		if _, err := io.CopyN''', '''		length := int64(binary.LittleEndian.Uint32(header))
		size += 4

		if _, err := io.CopyN'''), (L, 'size += 4 + length', 'size += length')])
m('C33 size torn', 'C33', [(L, '''		if _, err := io.CopyN(ioutil.Discard, r, length); err == io.EOF {
			return size, nil
''', '''		if n, err := io.CopyN(ioutil.Discard, r, length); err == io.EOF {
			return size + n, nil
''')])
m('C33 size err nil', 'C33', [(L, '''			return size, nil
		} else if err != nil {
			return size, err
		}

		length :=''', '''			return size, nil
		} else if err != nil {
			return size, nil
		}

		length :=''')])
m('C33 size big endian', 'C33', [(L, 'int64(binary.LittleEndian.Uint32(header))', 'int64(binary.BigEndian.Uint32(header))')])
m('C33 size swallow', 'C33', [(L, '''		} else if err != nil {
			return size, err
		}

		size +=''', '''		} else if err != nil {
			break
		}

		size +='''), (L, '''		size += 4 + length
	}
''', '''		size += 4 + length
	}

	return size, nil
''')])
m('C33 fine size switch', 'C33', [(L, '''		if _, err := io.CopyN(ioutil.Discard, r, length); err == io.EOF {
			return size, nil
		} else if err != nil {
			return size, err
		}

		size += 4 + length''', '''		n, err := io.CopyN(ioutil.Discard, r, length)
		switch err {
		case nil:
			size = size + length + int64(4)
		case io.EOF:
			return size, nil
		default:
			_ = n
			return size, err
		}''')], False)
m('C33 fine size helper', 'C33', [(L, '''func CompleteSize(reader io.Reader) (int64, error) {
	var size int64
''', '''func CompleteSize(reader io.Reader) (int64, error) {
	var total int64

	r := bufio.NewReader(reader)
	for {
		n, err := skipRecord(r)
		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
			return total, nil
		}
		if err != nil {
			return total, err
		}
		total += n
	}
}

func skipRecord(r io.Reader) (int64, error) {
	header := make([]byte, 4)
	if _, err := io.ReadFull(r, header); err != nil {
		return 0, err
	}
	length := int64(binary.LittleEndian.Uint32(header))
	if _, err := io.CopyN(ioutil.Discard, r, length); err != nil {
		return 0, err
	}
	return length + 4, nil
}

func completeSize2(reader io.Reader) (int64, error) {
	var size int64
''')], False)

# C08
m('C08 db-master-start', 'C08', [('pkg/db/engine.go', '\tif e.master != nil {\n\t\te.master.Start()\n\t}\n', '\te.master.Start()\n')])
m('C08 db-file-stop', 'C08', [('pkg/db/engine.go', '\tif e.file != nil {\n\t\t_ = e.file.Flush()\n\t}\n', '\t_ = e.file.Flush()\n')])
m('C08 db-writelog', 'C08', [('pkg/db/engine.go', '\tif e.file == nil {\n\t\treturn\n\t}\n', '')])
m('C08 db-setfile', 'C08', [('pkg/db/engine.go', '\tif e.master != nil {\n\t\te.master.SetFile(e.file, filePath)\n\t}', '\te.master.SetFile(e.file, filePath)')])
m('C08 db-getdb', 'C08', [('pkg/db/engine.go', '\tif !ok {\n\t\treturn nil\n\t}\n\n\treturn db.(DB)', '\t_ = ok\n\n\treturn db.(DB)')])
m('C08 db-data', 'C08', [('pkg/db/engine.go', '\t\t\t\t_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%T", event.ID(), event.Data())\n\t\t\t\tbreak\n', '\t\t\t\t_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%T", event.ID(), event.Data())\n')])
m('C08 db-recv', 'C08', [('pkg/db/engine.go', '\t\t\t\t\tcommon.Warnf("unexpected error. err=%+v", err)\n\t\t\t\t\tbreak\n', '\t\t\t\t\tcommon.Warnf("unexpected error. err=%+v", err)\n')])
m('C08 db-name', 'C08', [('pkg/db/engine.go', '\tn, ok := objects[0].(protocol.RedisString)\n\tif !ok {\n\t\treturn nil, fmt.Errorf("invalid command name, raw=%+v", objects[0])\n\t}\n', '\tn, _ := objects[0].(protocol.RedisString)\n')])
m('C08 db-rebuild', 'C08', [('pkg/db/engine.go', '\t\t\tcommon.Warnf("rebuild: new command gives error, log=%s, error={%w}", log.FormatLog(vl), err)\n\t\t\tcontinue\n', '\t\t\tcommon.Warnf("rebuild: new command gives error, log=%s, error={%w}", log.FormatLog(vl), err)\n')])
m('C08 net-conn', 'C08', [('pkg/network/server.go', '\t\t\tif ok {\n\t\t\t\tif err := conn.(Conn).Write', '\t\t\tif ok || id != "" {\n\t\t\t\tif err := conn.(Conn).Write')])
m('C08 net-parse', 'C08', [('pkg/network/server.go', '\ti, ok := data.Get("id")\n\tif !ok {\n\t\treturn\n\t}\n\n\tid, ok = i.(string)', '\ti, ok := data.Get("id")\n\t_ = ok\n\tid = i.(string)')])
m('C08 net-master', 'C08', [('pkg/network/server.go', '\t\tcommon.Warnf("sync with master failed. addr=%s, err=%s", addr, err.Error())\n\t\treturn\n\t}\n\n\tdefer', '\t\tcommon.Warnf("sync with master failed. addr=%s, err=%s", addr, err.Error())\n\t}\n\n\tdefer')])
m('C08 rep-file', 'C08', [('pkg/replication/master.go', '\tif m.file == nil {\n\t\t_ = common.Errorf("no file provided.")\n\t\treturn\n\t}\n', '')])
m('C08 rep-tmp', 'C08', [('pkg/replication/master.go', '\t\t_ = common.Errorf("create temporary file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())\n\t\treturn\n', '\t\t_ = common.Errorf("create temporary file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())\n')])
m('C08 rep-listen', 'C08', [('pkg/replication/master.go', '\tl, err := net.ListenTCP("tcp", addr)\n\tif err != nil {\n\t\treturn nil\n\t}\n', '\tl, err := net.ListenTCP("tcp", addr)\n\tif err != nil {\n\t\tcommon.Warn("x")\n\t}\n')])
m('C08 rep-accept', 'C08', [('pkg/replication/master.go', '\t\t\t\t\tcommon.Warnf("tcp listen error. err=%s", err)\n\t\t\t\t\tcontinue\n', '\t\t\t\t\tcommon.Warnf("tcp listen error. err=%s", err)\n')])
m('C08 rep-seek', 'C08', [('pkg/replication/master.go', '\tret, err := tmpFile.Seek(0, 0)\n\tif ret != 0 {\n\t\t_ = common.Errorf("seek file failed. addr=%s, path=%s, ret=%d", addr, filePath, ret)', '\tret, err := tmpFile.Seek(0, 0)\n\tif ret != 0 {\n\t\t_ = common.Errorf("seek file failed. addr=%s, path=%s, ret=%d %s", addr, filePath, ret, err.Error())')])
m('C08 rep-stat', 'C08', [('pkg/replication/master.go', '\t\t_ = common.Errorf("cannot obtain status of file. addr=%s, path=%s, err=%s", addr, filePath, err.Error())\n\t\treturn\n', '\t\t_ = common.Errorf("cannot obtain status of file. addr=%s, path=%s, err=%s", addr, filePath, err.Error())\n')])
m('C08 ok after the use', 'C08', [('pkg/network/server.go', """			conn, ok := s.clients.Load(id)

			if ok {
				if err := conn.(Conn).Write""", """			v, ok := s.clients.Load(id)
			conn := v.(Conn)

			if ok {
				if err := conn.(Conn).Write""")])
m('C08 file found by a helper', 'C08', [('pkg/db/engine.go', """	if e.file == nil {
		return
	}
""", """	if !e.logging() {
		return
	}
"""), ('pkg/db/engine.go', """// It will ignore any error""", """func (e *engine) logging() bool {
	return e.file != nil
}

// It will ignore any error""")], False)
m('C08 connection by a helper', 'C08', [('pkg/network/server.go', """			conn, ok := s.clients.Load(id)

			if ok {""", """			conn, ok := s.clientOf(id)

			if ok {"""), ('pkg/network/server.go', """				if err := conn.(Conn).Write(obj.String()); err != nil {
					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())""", """				if err := conn.Write(obj.String()); err != nil {
					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.Addr(), obj.String())"""), ('pkg/network/server.go', """func (s *server) stop() {""", """func (s *server) clientOf(id string) (Conn, bool) {
	v, ok := s.clients.Load(id)
	if !ok {
		return nil, false
	}
	c, ok := v.(Conn)
	return c, ok
}

func (s *server) stop() {""")], False)
m('C08 opened by a helper', 'C08', [('pkg/replication/master.go', """	rawFile, err := os.Open(m.filePath)
	if err != nil {
		_ = common.Errorf("open raw file failed. addr=%s, path=%s, raw_path=%s, err=%s", addr, filePath, m.filePath, err.Error())
		return
	}
""", """	rawFile := m.open()
	if rawFile == nil {
		return
	}
"""), ('pkg/replication/master.go', """func (m *master) Start() {""", """func (m *master) open() *os.File {
	f, err := os.Open(m.filePath)
	if err != nil {
		_ = common.Errorf("open raw file failed. raw_path=%s, err=%s", m.filePath, err.Error())
		return nil
	}
	return f
}

func (m *master) Start() {""")], False)
m('C08 file handed to the goroutine', 'C08', [('pkg/replication/master.go', """	if m.file == nil {
		_ = common.Errorf("no file provided.")
		return
	}

	addr :=""", """	addr :="""), ('pkg/replication/master.go', """			go m.handleConn(conn)""", """			if m.file == nil {
				_ = common.Errorf("no file provided.")
				_ = conn.Close()
				continue
			}
			go m.handleConn(conn)""")], False)

# C32
B = 'pkg/concurrency/broadcast.go'
m('C32 woken early', 'C32', [(B, """		bc.message = message
		close(bc.readyChannel)""", """		close(bc.readyChannel)
		bc.message = message""")])
m('C32 set outside', 'C32', [(B, """	bc.setOnce.Do(func() {
		bc.message = message
""", """	bc.message = message
	bc.setOnce.Do(func() {
""")])
m('C32 nil not set', 'C32', [(B, """	bc.setOnce.Do(func() {
""", """	if message == nil {
		return
	}
	bc.setOnce.Do(func() {
""")])
m('C32 no wait', 'C32', [(B, """	<-bc.readyChannel
""", "")])
m('C32 fast', 'C32', [(B, """	<-bc.readyChannel
""", """	if bc.message != nil {
		return bc.message
	}
	<-bc.readyChannel
""")])
m('C32 read before', 'C32', [(B, """	<-bc.readyChannel
	return bc.message""", """	message := bc.message
	<-bc.readyChannel
	return message""")])
m('C32 no channel', 'C32', [(B, """		readyChannel: make(chan bool),
""", "")])
m('C32 no close', 'C32', [(B, """		close(bc.readyChannel)
""", "")])
m('C32 other', 'C32', [(B, """		bc.message = message
""", """		bc.message = nil
""")])
m('C32 fine cas', 'C32', [(B, """	bc.setOnce.Do(func() {
		bc.message = message
		close(bc.readyChannel)
	})""", """	if !atomic.CompareAndSwapInt32(&bc.set, 0, 1) {
		return
	}
	bc.publish(message)"""), (B, """func (bc *broadCaster) Get()""", """func (bc *broadCaster) publish(m interface{}) {
	bc.message = m
	close(bc.readyChannel)
}

func (bc *broadCaster) Get()"""), (B, "	setOnce      sync.Once", "	set          int32"), (B, 'import "sync"', 'import "sync/atomic"')], False)
m('C32 fine select', 'C32', [(B, """	<-bc.readyChannel
	return bc.message""", """	select {
	case <-bc.readyChannel:
		m := bc.message
		return m
	}""")], False)
m('C25 nil channel', 'C25', [('pkg/concurrency/data_channel.go', """	if size <= 0 {
		dc = make(chan Event)
	} else {
		dc = make(chan Event, size)
	}""", """	if size > 0 {
		dc = make(chan Event, size)
	}""")])
m('C25 flag value', 'C25', [('pkg/concurrency/data_channel.go', 'CompareAndSwapInt32(&r.closed, 0, 1)', 'CompareAndSwapInt32(&r.closed, 0, 2)')])
m('C25 fine flag value', 'C25', [('pkg/concurrency/data_channel.go', 'CompareAndSwapInt32(&r.closed, 0, 1)', 'CompareAndSwapInt32(&r.closed, 0, 2)'), ('pkg/concurrency/data_channel.go', 'atomic.LoadInt32(&r.closed) == 1', 'atomic.LoadInt32(&r.closed) == 2')], False)
m('C22 token reset', 'C22', [(RD, '''		buf.WriteString(cur)
		l := len(cur)
''', '''		buf.Reset()
		buf.WriteString(cur)
		l := len(cur)
''')])
m('C22 token buffer per line', 'C22', [(RD, '''	var buf bytes.Buffer

	for {
		cur, err := r.reader.ReadString(delimiter)
''', '''	var buf *bytes.Buffer

	for {
		buf = new(bytes.Buffer)
		cur, err := r.reader.ReadString(delimiter)
''')])
m('C22 runes', 'C22', [(RD, 'b, err := r.reader.ReadByte()', 'b, _, err := r.reader.ReadRune()'), (RD, 'buf.WriteByte(b)', 'buf.WriteRune(b)')])
m('C22 byte as rune', 'C22', [(RD, 'buf.WriteByte(b)', 'buf.WriteRune(rune(b))')])
m('C22 byte as text', 'C22', [(RD, 'buf.WriteByte(b)', 'buf.WriteString(string(rune(b)))')])
m('C22 refactor buffer kept', 'C22', [(RD, '''	token  string
	depth  int
}
''', '''	token  string
	depth  int
	buf    bytes.Buffer
}
'''), (RD, '''	var buf bytes.Buffer

	for {
		cur, err''', '''	buf := &r.buf
	buf.Reset()

	for {
		cur, err'''), (RD, '''	var buf bytes.Buffer

	if count < 0 {''', '''	buf := &r.buf
	buf.Reset()

	if count < 0 {''')], False)
MA36 = 'pkg/replication/master.go'
m('C36 replica left open', 'C36', [(MA36, '	defer func() { _ = conn.Close() }()\n', '')])
m('C36 replica left open when no file', 'C36', [(MA36, '	defer func() { _ = conn.Close() }()\n\n	if m.file == nil {\n		_ = common.Errorf("no file provided.")\n		return\n	}\n', '	if m.file == nil {\n		_ = common.Errorf("no file provided.")\n		return\n	}\n\n	defer func() { _ = conn.Close() }()\n')])
m('C36 replica kept', 'C36', [(MA36, '		delete(m.conn, addr)\n', '')])
m('C36 other replica forgotten', 'C36', [(MA36, '		delete(m.conn, addr)\n', '		delete(m.conn, conn.LocalAddr().String())\n')])
m('C36 copy left', 'C36', [(MA36, '		_ = os.Remove(filePath)\n', '')])
m('C36 copy left open', 'C36', [(MA36, '		_ = tmpFile.Close()\n', '')])
m('C36 raw file left open', 'C36', [(MA36, '	defer func() { _ = rawFile.Close() }()\n', '')])
m('C36 replica kept on error', 'C36', [(MA36, '''	defer func() {
		m.mutex.Lock()
		delete(m.conn, addr)
		m.mutex.Unlock()
	}()

''', ''), (MA36, '''	defer func() { _ = rawFile.Close() }()
''', '''	defer func() { _ = rawFile.Close() }()
	defer func() {
		m.mutex.Lock()
		delete(m.conn, addr)
		m.mutex.Unlock()
	}()
''')])
m('C36 refactor replica', 'C36', [(MA36, '''	defer func() {
		m.mutex.Lock()
		delete(m.conn, addr)
		m.mutex.Unlock()
	}()
''', '''	defer m.forget(conn)
'''), (MA36, '''	defer func() {
		_ = tmpFile.Close()
		_ = os.Remove(filePath)
	}()
''', '''	defer os.Remove(tmpFile.Name())
	defer tmpFile.Close()
'''), (MA36, '''func (m *master) Start() {
''', '''func (m *master) forget(conn net.Conn) {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	delete(m.conn, conn.RemoteAddr().String())
}

func (m *master) Start() {
''')], False)

import sys,re
root=sys.argv[1]
only=sys.argv[2:] 
def rep(f,o,n):
    p=root+'/'+f; s=open(p).read()
    assert s.count(o)==1,(f,s.count(o),o[:60])
    open(p,'w').write(s.replace(o,n))
def between(f,a,b,n):
    p=root+'/'+f; s=open(p).read()
    i=s.index(a); j=s.index(b,i)
    open(p,'w').write(s[:i]+n+s[j:])
def engine():
    between('engine.go','		sort.Strings(lockKeys)\n','		var lockErr error','''		keys := make([]string, len(lockKeys))
		copy(keys, lockKeys)
		sort.Strings(keys)
		seen := map[string]bool{}
		for _, k := range keys {
			if seen[k] {
				return ResultErrors(fmt.Errorf("lockKey(%s) repeated", k))
			}
			seen[k] = true
		}
		lockKeys := keys

''')
    rep('engine.go','''			for _, l := range ls {
				if err := e.locker.UnLock(unlockCtx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}''','''			for i := len(ls) - 1; i >= 0; i-- {
				if err := e.locker.UnLock(unlockCtx, ls[i]); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}''')
    between('engine.go','	typeActions := make(map[OpType]','func (e *Stage) collectEvents','''	type slot struct {
		op OpType
		t  reflect.Type
	}
	index := map[slot]*Action{}
	byOp := map[OpType][]*Action{}
	for _, item := range changes {
		op := changeType2OP(item.changeType)
		for _, entity := range item.children {
			po, err := e.executor.Entity2Model(entity, item.parent, op)
			if errors.Is(err, ErrEntityNotRegister) {
				e.logger.Info("entity not registered", "type", reflect.TypeOf(entity))
				continue
			} else if err != nil {
				return nil, err
			}
			k := slot{op, reflect.TypeOf(po)}
			a := index[k]
			if a == nil {
				a = &Action{Op: op}
				index[k] = a
				byOp[op] = append(byOp[op], a)
			}
			a.Models = append(a.Models, po)
			if op == OpUpdate {
				a.PrevModels = append(a.PrevModels, e.snapshot[entity].po)
			}
		}
	}
	actions := append([]*Action{}, byOp[OpInsert]...)
	actions = append(actions, byOp[OpUpdate]...)
	return append(actions, byOp[OpDelete]...), nil
}

''')
    between('engine.go','	eventMap := make(map[string]*DomainEvent, 0)','	// 事件根据发送时间','''	seen := map[string]bool{}
	events := make([]*DomainEvent, 0)
	take := func(entity, parent IEntity, children map[string][]IEntity) error {
		for _, evt := range entity.GetEvents() {
			if !seen[evt.ID] {
				seen[evt.ID] = true
				events = append(events, evt)
			}
		}
		return nil
	}
	for _, del := range e.meta.GetDeleted() {
		_ = walk(del, nil, take)
	}
	_ = walk(e.meta, nil, take)
''')
    rep('engine.go','''	if err := e.flush(); err != nil {
		return err
	}

	e.unDirty()
	return nil''','''	e.unDirty()
	return e.flush()''')
    rep('engine.go','''			if err := e.executor.RollBack(ctx); err != nil {
				e.logger.Error(err, "rollback failed", "err", err)
			}
			// 回滚消息事务
			if e.eventBus != nil && e.eventCtx != nil {
				if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok {
					_ = txEventBus.Rollback(e.eventCtx)
				}
			}
			return result''','''			// 回滚消息事务
			if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok && e.eventCtx != nil {
				_ = txEventBus.Rollback(e.eventCtx)
			}
			if err := e.executor.RollBack(ctx); err != nil {
				e.logger.Error(err, "rollback failed", "err", err)
			}
			return result''')
    # hooks
    between('engine.go','	if ct == newChildren && isBefore {','func (e *Stage) exec(','''	var f func(context.Context) error
	switch ct {
	case newChildren:
		if s, ok := entity.(IBeforeCreate); ok && isBefore {
			f = s.BeforeCreate
		}
		if s, ok := entity.(IAfterCreate); ok && !isBefore {
			f = s.AfterCreate
		}
	case dirtyChildren:
		if s, ok := entity.(IBeforeUpdate); ok && isBefore {
			f = s.BeforeUpdate
		}
		if s, ok := entity.(IAfterUpdate); ok && !isBefore {
			f = s.AfterUpdate
		}
	case deleteChildren:
		if s, ok := entity.(IBeforeDelete); ok && isBefore {
			f = s.BeforeDelete
		}
		if s, ok := entity.(IAfterDelete); ok && !isBefore {
			f = s.AfterDelete
		}
	}
	if f == nil {
		return nil
	}
	return f(ctx)
}

''')
    # hooks in reverse order of the changes
    p=root+'/engine.go'; s=open(p).read()
    o='''	for _, c := range changed {
		for _, entity := range c.children {
			if err := execHook(ctx, entity, c.changeType, true); err != nil {'''
    assert s.count(o)==1
    s=s.replace(o,'''	for i := len(changed) - 1; i >= 0; i-- {
		c := changed[i]
		for _, entity := range c.children {
			if err := execHook(ctx, entity, c.changeType, true); err != nil {''')
    open(p,'w').write(s)
    rep('engine.go','''	if errors.Is(err, ErrBreak) {
		return &Result{Break: true}
	}
	return ResultError(err)''','''	if !errors.Is(err, ErrBreak) {
		return ResultError(err)
	}
	return &Result{Break: true}''')
    rep('engine.go','''	normalEvents, txEvents := make([]*DomainEvent, 0), make([]*DomainEvent, 0)
	for _, evt := range events {''','''	txEventBus, ok := e.eventBus.(ITransactionEventBus)
	if !ok {
		return e.eventBus.Dispatch(ctx, events...)
	}
	normalEvents, txEvents := make([]*DomainEvent, 0), make([]*DomainEvent, 0)
	for _, evt := range events {''')
    between('engine.go','	if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok {\n		if len(txEvents) > 0 {','func (e *Stage) commit(','''	if len(txEvents) > 0 {
		eventCtx, err := txEventBus.DispatchBegin(ctx, txEvents...)
		if eventCtx != nil {
			e.eventCtx = eventCtx
		}
		if err != nil {
			return err
		}
	}
	if len(normalEvents) == 0 {
		return nil
	}
	return txEventBus.Dispatch(ctx, normalEvents...)
}

''')
def snapshot():
    between('snapshot.go','func walk(entity, parent','// entityDiff','''func walk(entity, parent IEntity, f func(entity, parent IEntity, children map[string][]IEntity) error) error {
	type node struct{ entity, parent IEntity }
	queue := []node{{entity, parent}}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		children := findChildren(n.entity)
		if err := f(n.entity, n.parent, children); err != nil {
			return err
		}
		keys := []string{}
		for k := range children {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, c := range children[k] {
				queue = append(queue, node{c, n.entity})
			}
		}
	}
	return nil
}

''')
    rep('snapshot.go','''	i := 0
	for _, item := range c.children {
		if item != entity {
			c.children[i] = item
			i++
		}
	}
	if i == len(c.children) {
		return false
	}
	c.children = c.children[:i]
	return true''','''	rest := make([]IEntity, 0, len(c.children))
	for _, item := range c.children {
		if item != entity {
			rest = append(rest, item)
		}
	}
	removed := len(rest) < len(c.children)
	c.children = rest
	return removed''')
    rep('snapshot.go','''			for _, item := range created {
				res = append(res, entityDiff(item, pool)...)
			}
		}

		// 处理有变更的子实体''','''		}
		for _, item := range created {
			res = append(res, entityDiff(item, pool)...)
		}

		// 处理有变更的子实体''')
def event():
    rep('event.go','''	eventBusMu.Lock()
	handlers := eventRouter[evt.Type]
	eventBusMu.Unlock()

	for _, h := range handlers {
		var bizEvt reflect.Value
		if h.eventType == domainEventType {
			bizEvt = reflect.ValueOf(evt)
		} else {
			bizEvt = reflect.New(h.eventType)
			if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
				return err
			}
		}
''','''	eventBusMu.Lock()
	handlers := append([]*eventHandler(nil), eventRouter[evt.Type]...)
	eventBusMu.Unlock()

	for i := 0; i < len(handlers); i++ {
		h := handlers[i]
		bizEvt, err := h.decode(evt)
		if err != nil {
			return err
		}
''')
    rep('event.go','''	var bizEvt reflect.Value
	if checker.eventType == domainEventType {
		bizEvt = reflect.ValueOf(evt)
	} else {
		bizEvt = reflect.New(checker.eventType)
		if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
			return TXRollBack
		}
	}
''','''	bizEvt, err := checker.decode(evt)
	if err != nil {
		return TXRollBack
	}
''')
    rep('event.go','''var ctxType =''','''func (h *eventHandler) decode(evt *DomainEvent) (reflect.Value, error) {
	if h.eventType == domainEventType {
		return reflect.ValueOf(evt), nil
	}
	v := reflect.New(h.eventType)
	return v, json.Unmarshal(evt.Payload, v.Interface())
}

var ctxType =''')
    rep('event.go','''	eventBusMu.Lock()
	defer eventBusMu.Unlock()

	handlerType := reflect.TypeOf(handler)''','''	handlerType := reflect.TypeOf(handler)''')
    rep('event.go','''	eventRouter[t] = append(''','''	eventBusMu.Lock()
	defer eventBusMu.Unlock()
	eventRouter[t] = append(''')
def executor():
    f='executor/mysql/executor.go'
    rep(f,'''			if len(a.Models) == 1 {
				return db.Where(pk+" = ?", a.Models[0].GetID()).Delete(newPO).Error
			}
''','')
    rep(f,'''		for _, a := range a.Models {
			pos = reflect.Append(pos, reflect.ValueOf(a))
		}''','''		for i := 0; i < len(a.Models); i++ {
			pos = reflect.Append(pos, reflect.ValueOf(a.Models[i]))
		}''')
    rep(f,'''	db := e.db

	val := ctx.Value(e.txKey)
	if val != nil {
		db = val.(*gorm.DB)
	}
''','''	db, ok := ctx.Value(e.txKey).(*gorm.DB)
	if !ok {
		db = e.db
	}
''')
    rep(f,'	f, ok := opMap[action.Op]','	f, known := opMap[action.Op]')
    rep(f,'	if !ok {\n		return fmt.Errorf("unsupport op','	if !known {\n		return fmt.Errorf("unsupport op')
    rep(f,'''			if len(a.PrevModels) > i {
				s, err''','''			if i < len(a.PrevModels) {
				s, err''')
    rep('executor/mysql/diff.go','''		if !diffValue(fieldVal, prevFiledVal) {
			continue
		}
''','''		same := !diffValue(fieldVal, prevFiledVal)
		if same {
			continue
		}
''')
def eventbus():
    f='eventbus/mysql/eventbus.go'
    rep(f,'''		for _, serviceName := range serviceNames {
			spos := make([]*ServiceEventPO, len(events))
			for i, po := range pos {
				spos[i] = &ServiceEventPO{''','''		spos := make([]*ServiceEventPO, 0, len(events)*len(serviceNames))
		for _, po := range pos {
			for _, serviceName := range serviceNames {
				spos = append(spos, &ServiceEventPO{''')
    rep(f,'''					NextTime: po.EventCreatedAt,
				}
			}
			if err := db.Create(spos).Error; err != nil {
				return err
			}
		}
		return nil''','''					NextTime: po.EventCreatedAt,
				})
			}
		}
		if len(spos) == 0 {
			return nil
		}
		return db.Create(spos).Error''')
    # no earliest query
    between(f,'	// 从service_event 视角查询最早的','	//// 每次只扫描','')
    rep(f,'''			if err = tx.Save(spo).Error; err != nil {''','''			if err = tx.Model(&ServiceEventPO{}).Where("id = ?", spo.ID).Updates(map[string]interface{}{
				"retry_count": spo.RetryCount, "status": spo.Status, "failed_message": spo.FailedMessage, "next_time": spo.NextTime, "run_at": spo.RunAt,
			}).Error; err != nil {''')
    between(f,'	eventChan := make(chan *EventTuple','	return\n}\n\nfunc (e *EventBus) checkPrecedingEvent','''	slots := make(chan struct{}, e.opt.ConsumeConcurrent)
	wg := sync.WaitGroup{}
	for _, t := range eventPOs {
		t := t
		slots <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-slots; wg.Done() }()
			_ = e.handleEvent(ctx, t.Event, t.ServiceEvent, scanStartEventID)
		}()
	}
	wg.Wait()
''')
    between(f,'	batch := 10\n','func (e *EventBus) Start(','''	all := make([]int64, 0)
	for rows.Next() {
		serviceEvent := &ServiceEventPO{}
		if err := e.db.ScanRows(rows, serviceEvent); err != nil {
			return err
		}
		all = append(all, serviceEvent.EventID)
	}
	_ = rows.Close()
	const batch = 25
	for len(all) > 0 {
		n := len(all)
		if n > batch {
			n = batch
		}
		if err := deleteServiceEvents(all[:n]); err != nil {
			return err
		}
		all = all[n:]
	}
	return nil
}

''')
    rep(f,'''	if st == dddfirework.TXCommit {
		if err := e.Commit(ctx); err != nil {
			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")
		}
	} else if st == dddfirework.TXRollBack {
		if err := e.Rollback(ctx); err != nil {
			e.logger.Error(err, "[eventbus] rollback failed after tx check timeout")
		}
	}''','''	var err error
	switch st {
	case dddfirework.TXCommit:
		err = e.Commit(ctx)
	case dddfirework.TXRollBack:
		err = e.Rollback(ctx)
	}
	if err != nil {
		e.logger.Error(err, "[eventbus] decision failed after tx check timeout")
	}''')
    between(f,'	notReady := &ServiceEventPO{}','	if !errors.Is(err, gorm.ErrRecordNotFound) {\n		e.logger.V(logger.LevelInfo).Info("find preceding','''	var n int64
	err := query.Model(&ServiceEventPO{}).Count(&n).Error
	if err == nil && n > 0 {
		e.logger.V(logger.LevelInfo).Info("preceding service_event is not ready, ignore", "current event_id", spo.EventID)
		return ErrPrecedingEventNotReady
	}
	if err == nil {
		err = gorm.ErrRecordNotFound
	}
''')
    rep(f,'''	info := &RetryInfo{
		ID:         spo.EventID,
		RetryCount: spo.RetryCount,
		RetryTime:  time.Now(),
	}
	newInfo := e.retryStrategy.Next(info)
	if newInfo != nil {
		spo.RetryCount = newInfo.RetryCount
		spo.NextTime = newInfo.RetryTime
	} else {
		spo.Status = ServiceEventStatusFailed
	}

	return''','''	newInfo := e.retryStrategy.Next(&RetryInfo{ID: spo.EventID, RetryCount: spo.RetryCount, RetryTime: time.Now()})
	if newInfo == nil {
		spo.Status = ServiceEventStatusFailed
		return
	}
	spo.RetryCount, spo.NextTime = newInfo.RetryCount, newInfo.RetryTime''')
def dblock():
    f='lock/db/sql.go'
    between(f,'	// 加锁失败后重试\n','func (r *DBLock) lock(','''	for i := 0; ; i++ {
		if keyLock, err = r.lock(ctx, key); err != dddfirework.ErrEntityLocked || i == 4 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
}

''')
    rep(f,'	"github.com/avast/retry-go"\n','')
    rep(f,'''	done := make(chan struct{})
	defer close(done)
''','''	done := make(chan struct{})
	stopped := make(chan struct{})
	defer func() { close(done) }()
''')
    rep(f,'''	go func() {
		ticker := time.NewTicker(r.opt.RenewInterval)
		defer ticker.Stop()''','''	go func() {
		defer close(stopped)
		ticker := time.NewTicker(r.opt.RenewInterval)
		defer ticker.Stop()''')
    rep(f,'''	l := keyLock.(*ResourceLock)
	res := r.db.WithContext(ctx).Where("locker_id = ? and resource = ?", l.LockerID, l.Resource).Delete(&ResourceLock{})
	if res.Error != nil {
		return res.Error
	}
	if res.RowsAffected <= 0 { // should not go into this
		return fmt.Errorf("lock record not found (id=%s resource=%s)", l.LockerID, l.Resource)
	}
	return nil''','''	l := keyLock.(*ResourceLock)
	res := r.db.WithContext(ctx).Where("resource = ?", l.Resource).Where("locker_id = ?", l.LockerID).Delete(&ResourceLock{})
	if res.Error == nil && res.RowsAffected == 0 {
		return fmt.Errorf("lock record not found (id=%s resource=%s)", l.LockerID, l.Resource)
	}
	return res.Error''')
def timer():
    f='d_timer/sql/timer.go'
    rep(f,'''	if err := t.db.Where(cond).Attrs(job).FirstOrCreate(&TimerJob{}).Error; err != nil {
		// 可能其他实例同时设置了相同的定时，此时不覆盖已有计时
		if t.db.Where(cond).First(&TimerJob{}).Error != nil {
			return err
		}
	}
	return nil''','''	err := t.db.Where(cond).First(&TimerJob{}).Error
	if !errors.Is(err, gorm.ErrRecordNotFound) {
		return err
	}
	if err := t.db.Create(job).Error; err != nil {
		// 可能其他实例同时设置了相同的定时，此时不覆盖已有计时
		if t.db.Where(cond).First(&TimerJob{}).Error != nil {
			return err
		}
	}
	return nil''')
    rep(f,'import (','import (\n	"errors"')
    rep(f,'''			if err := tx.Save(job).Error; err != nil {
				return err
			}

			return nil''','''			return tx.Model(&TimerJob{}).Where("id = ?", job.ID).Updates(map[string]interface{}{"next_time": job.NextTime, "status": job.Status, "msg": job.Msg}).Error''')
    rep('d_timer/sql/model.go','''	if t.Cron != "" {
		return t.Reset()
	} else {
		t.Close(nil)
		return nil
	}''','''	if t.Cron == "" {
		t.Close(nil)
		return nil
	}
	return t.Reset()''')
    rep(f,'''return t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{}).Error''','''return t.db.Unscoped().Delete(&TimerJob{}, "`service` = ? AND `key` = ?", t.service, key).Error''')
def membus():
    f='eventbus/mem/eventbus.go'
    rep(f,'''		for {
			select {
			case evt := <-e.ch:
				_ = e.cb(ctx, evt)
			case <-ctx.Done():
				return
			}
		}''','''		for ctx.Err() == nil {
			select {
			case <-ctx.Done():
			case evt := <-e.ch:
				if err := e.cb(ctx, evt); err != nil {
					continue
				}
			}
		}''')
allf=[engine,snapshot,event,executor,eventbus,dblock,timer,membus]
for f in allf:
    if not only or f.__name__ in only: f()

package dddfirework_test

import (
	"context"
	"fmt"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"
)

// a minimal in-memory store for demonstrations

type node struct {
	ddd.BaseEntity
	Name string
	Subs []*leaf
	One  *leaf
}

type leaf struct {
	ddd.BaseEntity
	Name string
	Subs []*twig
}

type twig struct {
	ddd.BaseEntity
	Name string
}

type ev struct {
	N int
}

func (e *ev) GetType() ddd.EventType { return "zz_demo" }
func (e *ev) GetSender() string      { return "s" }

type row struct {
	Kind, ID, Parent, Name string
}

func (r *row) GetID() string { return r.ID }

type leafRow struct{ row }
type twigRow struct{ row }
type evRow struct{ row }

func rowOf(m ddd.IModel) *row {
	switch r := m.(type) {
	case *row:
		return r
	case *leafRow:
		return &r.row
	case *twigRow:
		return &r.row
	case *evRow:
		return &r.row
	}
	panic(fmt.Sprintf("%T", m))
}

type store struct {
	rows map[string]row
	keep map[string]row
	inTx bool
	log  []string
	fail func(a *ddd.Action) error
}

func newStore(rows ...row) *store {
	s := &store{rows: map[string]row{}}
	for _, r := range rows {
		s.rows[r.ID] = r
	}
	return s
}

func (s *store) Begin(ctx context.Context) (context.Context, error) {
	s.log = append(s.log, "begin")
	s.inTx = true
	s.keep = map[string]row{}
	for k, v := range s.rows {
		s.keep[k] = v
	}
	return ctx, nil
}
func (s *store) Commit(ctx context.Context) error {
	s.log = append(s.log, "commit")
	s.inTx = false
	return nil
}
func (s *store) RollBack(ctx context.Context) error {
	s.log = append(s.log, "rollback")
	s.inTx = false
	s.rows = s.keep
	return nil
}
func (s *store) Entity2Model(e, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	pid := ""
	if parent != nil {
		pid = parent.GetID()
	}
	switch x := e.(type) {
	case *node:
		return &row{"node", x.GetID(), "", x.Name}, nil
	case *leaf:
		return &leafRow{row{"leaf", x.GetID(), pid, x.Name}}, nil
	case *twig:
		return &twigRow{row{"twig", x.GetID(), pid, x.Name}}, nil
	}
	return nil, ddd.ErrEntityNotRegister
}
func (s *store) Model2Entity(m ddd.IModel, e ddd.IEntity) error {
	r := rowOf(m)
	e.SetID(r.ID)
	switch x := e.(type) {
	case *node:
		x.Name = r.Name
	case *leaf:
		x.Name = r.Name
	case *twig:
		x.Name = r.Name
	}
	return nil
}
func (s *store) Exec(ctx context.Context, a *ddd.Action) error {
	if s.fail != nil {
		if err := s.fail(a); err != nil {
			return err
		}
	}
	if a.Op == ddd.OpQuery {
		q := rowOf(a.Query)
		ids := []string{}
		for id := range s.rows {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			r := s.rows[id]
			if r.Kind != q.Kind || q.ID != "" && q.ID != r.ID || q.Parent != "" && q.Parent != r.Parent {
				continue
			}
			switch res := a.QueryResult.(type) {
			case *[]*row:
				*res = append(*res, &r)
			case *[]*leafRow:
				*res = append(*res, &leafRow{r})
			case *[]*twigRow:
				*res = append(*res, &twigRow{r})
			default:
				panic(fmt.Sprintf("%T", res))
			}
		}
		return nil
	}
	for _, m := range a.Models {
		r := *rowOf(m)
		switch a.Op {
		case ddd.OpInsert:
			if _, in := s.rows[r.ID]; in {
				return fmt.Errorf("duplicate %s", r.ID)
			}
			s.log = append(s.log, "insert "+r.ID)
			s.rows[r.ID] = r
		case ddd.OpUpdate:
			s.log = append(s.log, "update "+r.ID)
			s.rows[r.ID] = r
		case ddd.OpDelete:
			s.log = append(s.log, "delete "+r.ID)
			delete(s.rows, r.ID)
		}
	}
	return nil
}

func (s *store) dump() string {
	out := []string{}
	for _, r := range s.rows {
		out = append(out, fmt.Sprintf("%s:%s<%s=%s", r.Kind, r.ID, r.Parent, r.Name))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

type lock struct{ log []string }

func (l *lock) Lock(ctx context.Context, key string) (interface{}, error) {
	l.log = append(l.log, "lock "+key)
	if strings.Contains(key, "busy") {
		return nil, ddd.ErrEntityLocked
	}
	return key, nil
}
func (l *lock) UnLock(ctx context.Context, k interface{}) error {
	l.log = append(l.log, "unlock "+k.(string))
	return nil
}

type bus struct {
	got  []string
	log  []string
	fail error
}

func (b *bus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	for _, e := range evts {
		b.got = append(b.got, string(e.Payload))
	}
	b.log = append(b.log, "dispatch")
	return b.fail
}
func (b *bus) RegisterEventHandler(cb ddd.DomainEventHandler) {}

type txBus struct{ bus }

func (b *txBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	b.log = append(b.log, "begin")
	return ctx, nil
}
func (b *txBus) Commit(ctx context.Context) error {
	b.log = append(b.log, "commit")
	return nil
}
func (b *txBus) Rollback(ctx context.Context) error {
	b.log = append(b.log, "rollback")
	return nil
}
func (b *txBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {}

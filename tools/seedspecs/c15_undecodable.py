ID='C15-unknown-if-undecodable'; PROP='C15'
NEEDS='a transactional event whose payload the checker cannot decode'
BREAKS='an event that cannot be decoded is answered as unknown, so its transaction is asked about for ever'
EDITS=[('event.go', '\t\t\treturn TXRollBack\n\t\t}\n\t}\n\n\touts :=', '\t\t\treturn TXUnknown\n\t\t}\n\t}\n\n\touts :=')]
DEMO='''package dddfirework

import (
	"context"
	"testing"
)

type zzBus struct{ ck DomainEventTXChecker }

func (b *zzBus) Dispatch(ctx context.Context, evt ...*DomainEvent) error { return nil }
func (b *zzBus) RegisterEventHandler(cb DomainEventHandler)              {}
func (b *zzBus) RegisterEventTXChecker(cb DomainEventTXChecker)          { b.ck = cb }
func (b *zzBus) DispatchBegin(ctx context.Context, evt ...*DomainEvent) (context.Context, error) {
	return ctx, nil
}
func (b *zzBus) Commit(ctx context.Context) error   { return nil }
func (b *zzBus) Rollback(ctx context.Context) error { return nil }

type zzPayload struct{ N int }

func TestZZ(t *testing.T) {
	b := &zzBus{}
	RegisterEventBus(b)
	RegisterEventTXChecker("zz_undecodable", func(e *zzPayload) TXStatus { return TXCommit })
	if st := b.ck(&DomainEvent{Type: "zz_undecodable", Payload: []byte(`{"N": "x"}`)}); st != TXRollBack {
		t.Fatal(st)
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']

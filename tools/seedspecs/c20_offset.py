ID='C20-offset-of-record'; PROP='C20'
NEEDS='several services, so that the records of deliveries have larger numbers than the events they are about'
BREAKS='the scan starts at the number of the record instead of that of the event and never reaches the event'
EDITS=[('eventbus/mysql/eventbus.go','''			eventOffset = earliestRunnableServiceEvent.EventID
''','''			eventOffset = earliestRunnableServiceEvent.ID
''')]
DEMO='''package mysql

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
	"gorm.io/gorm/migrator"
	"gorm.io/gorm/schema"
)

var _ = errors.New
var _ = time.Now

type zzDial struct{ sqlite.Dialector }

func (d zzDial) DataTypeOf(f *schema.Field) string {
	t := d.Dialector.DataTypeOf(f)
	if strings.HasPrefix(t, "datetime(") {
		t = "datetime"
	}
	return t
}

func (d zzDial) Migrator(db *gorm.DB) gorm.Migrator {
	return sqlite.Migrator{Migrator: migrator.Migrator{Config: migrator.Config{DB: db, Dialector: d, CreateIndexAfterCreateTable: true}}}
}

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(zzDial{sqlite.Dialector{DSN: filepath.Join(os.Getenv("TMPDIR"), "bus.db") + "?_busy_timeout=5000"}}, &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&EventPO{}, &ServicePO{}, &ServiceEventPO{}, &Transaction{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func zzBus(t *testing.T, db *gorm.DB, service string, o ...Option) *EventBus {
	b := NewEventBus(service, db, append([]Option{func(o *Options) { o.Logger = logr.Discard(); o.ConsumeConcurrent = 1 }}, o...)...)
	if err := b.initService(); err != nil {
		t.Fatal(err)
	}
	return b
}

func zzEvt(id string, st dddfirework.SendType, at time.Time) *dddfirework.DomainEvent {
	return &dddfirework.DomainEvent{ID: id, Type: "zz", Sender: "s", SendType: st, Payload: []byte("{}"), CreatedAt: at}
}

func zzCollect(l *[]string, f func(id string) error) dddfirework.DomainEventHandler {
	return func(ctx context.Context, e *dddfirework.DomainEvent) error {
		*l = append(*l, e.ID)
		return f(e.ID)
	}
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	a, b := zzBus(t, db, "a"), zzBus(t, db, "b")
	var gotA, gotB []string
	a.RegisterEventHandler(zzCollect(&gotA, func(string) error { return nil }))
	b.RegisterEventHandler(zzCollect(&gotB, func(string) error { return nil }))
	for _, id := range []string{"x", "y", "z"} {
		if err := a.Dispatch(context.Background(), zzEvt(id, dddfirework.SendTypeNormal, time.Now().Add(-time.Second))); err != nil {
			t.Fatal(err)
		}
	}
	for k := 0; k < 4; k++ {
		if err := a.handleEvents(); err != nil {
			t.Fatal(err)
		}
		if err := b.handleEvents(); err != nil {
			t.Fatal(err)
		}
	}
	if len(gotA) != 3 || len(gotB) != 3 {
		t.Fatal(gotA, gotB)
	}
}
'''
PKG='eventbus/mysql'
HIDE=['eventbus/mysql/eventbus_test.go']

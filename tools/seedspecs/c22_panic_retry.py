ID='C22-panics-lose-interval'; PROP='C22'
NEEDS='a handler that panics, with a retry strategy that has an interval'
BREAKS='an event whose handler panicked is never retried later or given up as configured, but tried again at once, for ever'
EDITS=[('eventbus/mysql/eventbus.go','''				e.logger.Error(err, fmt.Sprintf("panic while handling event(%d)", spo.EventID))
				e.doRetryStrategy(spo)
''','''				e.logger.Error(err, fmt.Sprintf("panic while handling event(%d)", spo.EventID))
''')]
DEMO='''package mysql

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
	"gorm.io/gorm/migrator"
	"gorm.io/gorm/schema"
)

var _ = errors.New
var _ = time.Now

type zzDial struct{ sqlite.Dialector }

func (d zzDial) DataTypeOf(f *schema.Field) string {
	t := d.Dialector.DataTypeOf(f)
	if strings.HasPrefix(t, "datetime(") {
		t = "datetime"
	}
	return t
}

func (d zzDial) Migrator(db *gorm.DB) gorm.Migrator {
	return sqlite.Migrator{Migrator: migrator.Migrator{Config: migrator.Config{DB: db, Dialector: d, CreateIndexAfterCreateTable: true}}}
}

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(zzDial{sqlite.Dialector{DSN: filepath.Join(os.Getenv("TMPDIR"), "bus.db") + "?_busy_timeout=5000"}}, &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&EventPO{}, &ServicePO{}, &ServiceEventPO{}, &Transaction{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func zzBus(t *testing.T, db *gorm.DB, service string, o ...Option) *EventBus {
	b := NewEventBus(service, db, append([]Option{func(o *Options) { o.Logger = logr.Discard(); o.ConsumeConcurrent = 1 }}, o...)...)
	if err := b.initService(); err != nil {
		t.Fatal(err)
	}
	return b
}

func zzEvt(id string, st dddfirework.SendType, at time.Time) *dddfirework.DomainEvent {
	return &dddfirework.DomainEvent{ID: id, Type: "zz", Sender: "s", SendType: st, Payload: []byte("{}"), CreatedAt: at}
}

func zzCollect(l *[]string, f func(id string) error) dddfirework.DomainEventHandler {
	return func(ctx context.Context, e *dddfirework.DomainEvent) error {
		*l = append(*l, e.ID)
		return f(e.ID)
	}
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	b := zzBus(t, db, "svc", func(o *Options) { o.RetryStrategy = &IntervalRetry{Interval: time.Hour, Limit: 5} })
	var got []string
	b.RegisterEventHandler(zzCollect(&got, func(string) error { panic("handler") }))
	if err := b.Dispatch(context.Background(), zzEvt("x", dddfirework.SendTypeNormal, time.Now())); err != nil {
		t.Fatal(err)
	}
	for k := 0; k < 3; k++ {
		time.Sleep(20 * time.Millisecond)
		if err := b.handleEvents(); err != nil {
			t.Fatal(err)
		}
	}
	if len(got) != 1 {
		t.Fatal(got)
	}
}
'''
PKG='eventbus/mysql'
HIDE=['eventbus/mysql/eventbus_test.go']

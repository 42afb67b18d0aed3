ID='C24-foreign-transactions'; PROP='C24'
NEEDS='an undecided transaction of one service while another service shares the database'
BREAKS='a service asks its own checker about the transactions of others and rolls back what it does not know'
EDITS=[('eventbus/mysql/eventbus.go','''"service = ? and due_time < ?", e.serviceName, time.Now(),
		).Find''','''"due_time < ?", time.Now(),
		).Find''')]
DEMO='''package mysql

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
	"gorm.io/gorm/migrator"
	"gorm.io/gorm/schema"
)

var _ = errors.New
var _ = time.Now

type zzDial struct{ sqlite.Dialector }

func (d zzDial) DataTypeOf(f *schema.Field) string {
	t := d.Dialector.DataTypeOf(f)
	if strings.HasPrefix(t, "datetime(") {
		t = "datetime"
	}
	return t
}

func (d zzDial) Migrator(db *gorm.DB) gorm.Migrator {
	return sqlite.Migrator{Migrator: migrator.Migrator{Config: migrator.Config{DB: db, Dialector: d, CreateIndexAfterCreateTable: true}}}
}

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(zzDial{sqlite.Dialector{DSN: filepath.Join(os.Getenv("TMPDIR"), "bus.db") + "?_busy_timeout=5000"}}, &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&EventPO{}, &ServicePO{}, &ServiceEventPO{}, &Transaction{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func zzBus(t *testing.T, db *gorm.DB, service string, o ...Option) *EventBus {
	b := NewEventBus(service, db, append([]Option{func(o *Options) { o.Logger = logr.Discard(); o.ConsumeConcurrent = 1 }}, o...)...)
	if err := b.initService(); err != nil {
		t.Fatal(err)
	}
	return b
}

func zzEvt(id string, st dddfirework.SendType, at time.Time) *dddfirework.DomainEvent {
	return &dddfirework.DomainEvent{ID: id, Type: "zz", Sender: "s", SendType: st, Payload: []byte("{}"), CreatedAt: at}
}

func zzCollect(l *[]string, f func(id string) error) dddfirework.DomainEventHandler {
	return func(ctx context.Context, e *dddfirework.DomainEvent) error {
		*l = append(*l, e.ID)
		return f(e.ID)
	}
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	short := func(o *Options) { o.TXCheckTimeout = time.Millisecond }
	a, b := zzBus(t, db, "a", short), zzBus(t, db, "b", short)
	a.RegisterEventTXChecker(func(*dddfirework.DomainEvent) dddfirework.TXStatus { return dddfirework.TXCommit })
	b.RegisterEventTXChecker(func(*dddfirework.DomainEvent) dddfirework.TXStatus { return dddfirework.TXRollBack })
	if _, err := a.DispatchBegin(context.Background(), zzEvt("x", dddfirework.SendTypeTransaction, time.Now())); err != nil {
		t.Fatal(err)
	}
	time.Sleep(30 * time.Millisecond)
	for _, x := range []*EventBus{b, a} {
		if err := x.handleTransactions(); err != nil {
			t.Fatal(err)
		}
	}
	var n int64
	if err := db.Model(&EventPO{}).Count(&n).Error; err != nil || n != 1 {
		t.Fatal(n, err)
	}
}
'''
PKG='eventbus/mysql'
HIDE=['eventbus/mysql/eventbus_test.go']

ID='C21-dispatches-in-chunks'; PROP='C21'
NEEDS='a dispatch of several events that fails half-way'
BREAKS='events are stored in groups of two, so a dispatch that fails after the first group leaves that group behind'
EDITS=[('eventbus/mysql/eventbus.go', '\ttx := e.getTX(ctx)\n\tpos := make([]*EventPO, len(events))\n\n\tfor i, evt := range events {', '\tfor ; len(events) > 2; events = events[2:] {\n\t\tif err := e.Dispatch(ctx, events[:2]...); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\ttx, pos := e.getTX(ctx), make([]*EventPO, len(events))\n\n\tfor i, evt := range events {')]
DEMO='''package mysql

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
	"gorm.io/gorm/migrator"
	"gorm.io/gorm/schema"
)

var _ = errors.New
var _ = time.Now

type zzDial struct{ sqlite.Dialector }

func (d zzDial) DataTypeOf(f *schema.Field) string {
	t := d.Dialector.DataTypeOf(f)
	if strings.HasPrefix(t, "datetime(") {
		t = "datetime"
	}
	return t
}

func (d zzDial) Migrator(db *gorm.DB) gorm.Migrator {
	return sqlite.Migrator{Migrator: migrator.Migrator{Config: migrator.Config{DB: db, Dialector: d, CreateIndexAfterCreateTable: true}}}
}

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(zzDial{sqlite.Dialector{DSN: filepath.Join(os.Getenv("TMPDIR"), "bus.db") + "?_busy_timeout=5000"}}, &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&EventPO{}, &ServicePO{}, &ServiceEventPO{}, &Transaction{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func zzBus(t *testing.T, db *gorm.DB, service string, o ...Option) *EventBus {
	b := NewEventBus(service, db, append([]Option{func(o *Options) { o.Logger = logr.Discard(); o.ConsumeConcurrent = 1 }}, o...)...)
	if err := b.initService(); err != nil {
		t.Fatal(err)
	}
	return b
}

func zzEvt(id string, st dddfirework.SendType, at time.Time) *dddfirework.DomainEvent {
	return &dddfirework.DomainEvent{ID: id, Type: "zz", Sender: "s", SendType: st, Payload: []byte("{}"), CreatedAt: at}
}

func zzCollect(l *[]string, f func(id string) error) dddfirework.DomainEventHandler {
	return func(ctx context.Context, e *dddfirework.DomainEvent) error {
		*l = append(*l, e.ID)
		return f(e.ID)
	}
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	b := zzBus(t, db, "svc")
	n := 0
	if err := db.Callback().Create().Before("gorm:create").Register("zz", func(d *gorm.DB) {
		if n++; n > 2 {
			_ = d.AddError(errors.New("connection lost"))
		}
	}); err != nil {
		t.Fatal(err)
	}
	now := time.Now()
	err := b.Dispatch(context.Background(), zzEvt("1", dddfirework.SendTypeNormal, now), zzEvt("2", dddfirework.SendTypeNormal, now), zzEvt("3", dddfirework.SendTypeNormal, now))
	var k int64
	if e := db.Model(&EventPO{}).Count(&k).Error; e != nil {
		t.Fatal(e)
	}
	if (err == nil) != (k == 3) || err != nil && k != 0 {
		t.Fatal(err, k)
	}
}
'''
PKG='eventbus/mysql'
HIDE=['eventbus/mysql/eventbus_test.go']

ID='C29-fires-for-others'; PROP='C29'
NEEDS='two services with timers in one database'
BREAKS='a service fires the timers of another one with its own callback'
EDITS=[('d_timer/sql/timer.go','''	if err := t.db.Where(
		"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,
	).Find(&jobs).Error; err != nil {''','''	if err := t.db.Where(
		"next_time <= ? and status = ?", time.Now(), TimerToRun,
	).Find(&jobs).Error; err != nil {'''),
('d_timer/sql/timer.go','''				"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,
''','''				"next_time <= ? and status = ? and id = ?", time.Now(), TimerToRun, job.ID,
''')]
DEMO='''package sql

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/go-logr/logr"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
)

var _ = errors.New
var _ = time.Now

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(sqlite.Open(filepath.Join(os.Getenv("TMPDIR"), "timer.db")+"?_busy_timeout=5000"), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&TimerJob{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func zzTimer(service string, db *gorm.DB, got *[]string) *DBTimer {
	x := NewDBTimer(service, db, func(o *Options) { o.Logger = logr.Discard() })
	x.RegisterTimerHandler(func(ctx context.Context, key, cron string, data []byte) error {
		*got = append(*got, key)
		return nil
	})
	return x
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	var a, b []string
	ta, tb := zzTimer("a", db, &a), zzTimer("b", db, &b)
	if err := ta.RunOnce("k", time.Now().Add(50*time.Millisecond), nil); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	for _, x := range []*DBTimer{tb, ta} {
		if err := x.handleJobs(context.Background()); err != nil {
			t.Fatal(err)
		}
	}
	if len(a) != 1 || len(b) != 0 {
		t.Fatal(a, b)
	}
}
'''
PKG='d_timer/sql'
HIDE=['d_timer/sql/timer_test.go']

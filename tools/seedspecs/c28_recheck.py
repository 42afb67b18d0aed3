ID='C28-fires-cancelled'; PROP='C28'
NEEDS='an instance that has found a due timer while another one handles it'
BREAKS='the timer is fired by both: whether it is still due is not looked at again once its record is locked'
EDITS=[('d_timer/sql/timer.go','''				"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,
''','''				"service = ? and id = ?", t.service, job.ID,
''')]
DEMO='''package sql

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/go-logr/logr"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
)

var _ = errors.New
var _ = time.Now

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(sqlite.Open(filepath.Join(os.Getenv("TMPDIR"), "timer.db")+"?_busy_timeout=5000"), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&TimerJob{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func zzTimer(service string, db *gorm.DB, got *[]string) *DBTimer {
	x := NewDBTimer(service, db, func(o *Options) { o.Logger = logr.Discard() })
	x.RegisterTimerHandler(func(ctx context.Context, key, cron string, data []byte) error {
		*got = append(*got, key)
		return nil
	})
	return x
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	var a []string
	x, y := zzTimer("a", db, &a), zzTimer("a", db, &a)
	if err := x.RunOnce("k", time.Now().Add(50*time.Millisecond), nil); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	first := true
	if err := db.Callback().Query().After("gorm:query").Register("zz", func(*gorm.DB) {
		if first { // the other instance fires the timer after this one has found it
			first = false
			if err := y.handleJobs(context.Background()); err != nil {
				t.Error(err)
			}
		}
	}); err != nil {
		t.Fatal(err)
	}
	if err := x.handleJobs(context.Background()); err != nil {
		t.Fatal(err)
	}
	if len(a) != 1 {
		t.Fatal(a)
	}
}
'''
PKG='d_timer/sql'
HIDE=['d_timer/sql/timer_test.go']

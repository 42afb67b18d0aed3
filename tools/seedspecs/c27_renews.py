ID='C27-renews-what-it-lost'; PROP='C27'
NEEDS='a run that stalls for longer than the time-to-live, so that another takes its lock over'
BREAKS='its renewal takes the lock back silently: two runs go on at the same time'
EDITS=[('lock/db/sql.go','''		Where("`resource` = ? AND `locker_id` = ?", l.Resource, l.LockerID). // check if locker_id has been changed by others
''','''		Where("`resource` = ?", l.Resource).
''')]
DEMO='''package db

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
)

var _ = context.Background

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(sqlite.Open(filepath.Join(os.Getenv("TMPDIR"), "lock.db")+"?_busy_timeout=5000"), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&ResourceLock{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	a := NewDBLock(db, time.Hour, func(o *Options) { o.RenewInterval = 20 * time.Millisecond })
	stopped := false
	if err := a.Run(context.Background(), "k", func(ctx context.Context) {
		if err := db.Model(&ResourceLock{}).Where("resource = ?", "k").Update("locker_id", "other").Error; err != nil {
			t.Error(err)
		}
		select {
		case <-ctx.Done():
			stopped = true
		case <-time.After(2 * time.Second):
		}
	}); err != nil {
		t.Fatal(err)
	}
	if !stopped {
		t.Fatal("the run goes on without its lock")
	}
}
'''
PKG='lock/db'

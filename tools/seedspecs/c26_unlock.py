ID='C26-unlocks-for-others'; PROP='C26'
NEEDS='a lock that expired and was taken over before its former holder releases it'
BREAKS='the former holder releases the lock of the new one'
EDITS=[('lock/db/sql.go','''Where("locker_id = ? and resource = ?", l.LockerID, l.Resource).Delete(&ResourceLock{})''','''Where("resource = ?", l.Resource).Delete(&ResourceLock{})''')]
DEMO='''package db

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
)

var _ = context.Background

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(sqlite.Open(filepath.Join(os.Getenv("TMPDIR"), "lock.db")+"?_busy_timeout=5000"), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&ResourceLock{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	short := func(o *Options) { o.RenewInterval = time.Millisecond }
	a, b := NewDBLock(db, 50*time.Millisecond, short), NewDBLock(db, time.Hour, short)
	la, err := a.Lock(context.Background(), "k")
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	c := NewDBLock(db, 50*time.Millisecond, short)
	if _, err := c.Lock(context.Background(), "k"); err != nil {
		t.Fatal(err)
	}
	_ = a.UnLock(context.Background(), la)
	if _, err := b.Lock(context.Background(), "k"); err == nil {
		t.Fatal("locked twice")
	}
}
'''
PKG='lock/db'

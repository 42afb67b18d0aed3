ID='C17-stops-at-unchanged'; PROP='C17'
NEEDS='an update of several rows of which an earlier one is unchanged'
BREAKS='the rows after the unchanged one are not updated'
EDITS=[('executor/mysql/executor.go','''				if len(fields) == 0 {
					continue
				}
''','''				if len(fields) == 0 {
					return nil
				}
''')]
DEMO='''package mysql

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	ddd "github.com/bytedance/dddfirework"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
)

type zzPO struct {
	ID   string `gorm:"primaryKey"`
	Name string
}

func (p *zzPO) GetID() string     { return p.ID }
func (p *zzPO) TableName() string { return "zz" }

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(sqlite.Open(filepath.Join(os.Getenv("TMPDIR"), "exec.db")+"?_busy_timeout=200&_journal_mode=WAL"), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&zzPO{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	ex := NewExecutor(db)
	do := func(op ddd.OpType, models, prev []ddd.IModel) {
		if err := ex.Exec(context.Background(), &ddd.Action{Op: op, Models: models, PrevModels: prev}); err != nil {
			t.Fatal(err)
		}
	}
	old := []ddd.IModel{&zzPO{"a", "1"}, &zzPO{"b", "1"}}
	do(ddd.OpInsert, []ddd.IModel{&zzPO{"a", "1"}, &zzPO{"b", "1"}}, nil)
	do(ddd.OpUpdate, []ddd.IModel{&zzPO{"a", "1"}, &zzPO{"b", "2"}}, old)
	p := &zzPO{}
	if err := db.First(p, "id = ?", "b").Error; err != nil || p.Name != "2" {
		t.Fatal(p, err)
	}
}
'''
PKG='executor/mysql'
HIDE=['executor/mysql/executor_test.go']

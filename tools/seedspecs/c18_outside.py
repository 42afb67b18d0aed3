ID='C18-reads-outside'; PROP='C18'
NEEDS='a query in a transaction that has written before'
BREAKS='queries run outside of the transaction and do not see what it has written'
EDITS=[('executor/mysql/executor.go','''	if val != nil {
		db = val.(*gorm.DB)
	}
''','''	if val != nil && action.Op != ddd.OpQuery {
		db = val.(*gorm.DB)
	}
''')]
DEMO='''package mysql

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	ddd "github.com/bytedance/dddfirework"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
)

type zzPO struct {
	ID   string `gorm:"primaryKey"`
	Name string
}

func (p *zzPO) GetID() string     { return p.ID }
func (p *zzPO) TableName() string { return "zz" }

func zzDB(t *testing.T) *gorm.DB {
	db, err := gorm.Open(sqlite.Open(filepath.Join(os.Getenv("TMPDIR"), "exec.db")+"?_busy_timeout=200&_journal_mode=WAL"), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(&zzPO{}); err != nil {
		t.Fatal(err)
	}
	d, _ := db.DB()
	t.Cleanup(func() { d.Close() })
	return db
}

func TestZZ(t *testing.T) {
	db := zzDB(t)
	ex := NewExecutor(db)
	ctx, err := ex.Begin(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	if err := ex.Exec(ctx, &ddd.Action{Op: ddd.OpInsert, Models: []ddd.IModel{&zzPO{"a", "1"}}}); err != nil {
		t.Fatal(err)
	}
	var got []*zzPO
	err = ex.Exec(ctx, &ddd.Action{Op: ddd.OpQuery, Query: &zzPO{ID: "a"}, QueryResult: &got})
	_ = ex.RollBack(ctx)
	if err != nil || len(got) != 1 {
		t.Fatal(err, len(got))
	}
}
'''
PKG='executor/mysql'
HIDE=['executor/mysql/executor_test.go']

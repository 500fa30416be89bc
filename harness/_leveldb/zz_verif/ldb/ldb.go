// Package ldb opens an empty in-memory leveldb; under symbolic execution the model below stands in for it.
package ldb

import (
	"bytes"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"github.com/syndtr/goleveldb/leveldb/util"
)

// Open is a leveldb over memory.
func Open() *leveldb.DB {
	db, err := leveldb.Open(storage.NewMemStorage(), nil)
	if err != nil {
		panic(err)
	}
	return db
}

type entry struct{ k, v []byte }

var contents = map[*leveldb.DB]*[]entry{}

func OpenModel() *leveldb.DB {
	db := &leveldb.DB{}
	contents[db] = &[]entry{}
	return db
}

func find(db *leveldb.DB, k []byte) (*[]entry, int) {
	es := contents[db]
	for i, e := range *es {
		if string(e.k) == string(k) {
			return es, i
		}
	}
	return es, -1
}

func GetModel(db *leveldb.DB, k []byte, ro *opt.ReadOptions) ([]byte, error) {
	es, i := find(db, k)
	if i < 0 {
		return nil, leveldb.ErrNotFound
	}
	return append([]byte{}, (*es)[i].v...), nil
}

func PutModel(db *leveldb.DB, k, v []byte, wo *opt.WriteOptions) error {
	es, i := find(db, k)
	if i < 0 {
		*es = append(*es, entry{append([]byte{}, k...), append([]byte{}, v...)})
	} else {
		(*es)[i].v = append([]byte{}, v...)
	}
	return nil
}

func DeleteModel(db *leveldb.DB, k []byte, wo *opt.WriteOptions) error {
	es, i := find(db, k)
	if i >= 0 {
		*es = append((*es)[:i:i], (*es)[i+1:]...)
	}
	return nil
}

func HasModel(db *leveldb.DB, k []byte, ro *opt.ReadOptions) (bool, error) {
	_, i := find(db, k)
	return i >= 0, nil
}

type iter struct {
	iterator.Iterator
	es  []entry
	pos int
}

func (it *iter) Next() bool {
	if it.pos < len(it.es) {
		it.pos++
	}
	return it.pos < len(it.es)
}
func (it *iter) Key() []byte   { return it.es[it.pos].k }
func (it *iter) Value() []byte { return it.es[it.pos].v }
func (it *iter) Release()      {}
func (it *iter) Error() error  { return nil }

// NewIteratorModel walks the entries of a range forwards, in key order.
func NewIteratorModel(db *leveldb.DB, r *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	it := &iter{pos: -1}
	for _, e := range *contents[db] {
		if r != nil && (bytes.Compare(e.k, r.Start) < 0 || len(r.Limit) > 0 && bytes.Compare(e.k, r.Limit) >= 0) {
			continue
		}
		i := len(it.es)
		it.es = append(it.es, e)
		for i > 0 && bytes.Compare(it.es[i].k, it.es[i-1].k) < 0 {
			it.es[i], it.es[i-1] = it.es[i-1], it.es[i]
			i--
		}
	}
	return it
}

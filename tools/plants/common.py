LIB = r'''
type dRow struct {
	ID   uint64 `json:"id"`
	Acc  uint32 `json:"acc,omitempty"`
	Name string `json:"name,omitempty"`
}

func dOpen(t *testing.T) DB {
	db, err := Open(filepath.Join(t.TempDir(), "db"), &Options{Serializer: &serializers.JsonSerializer{}})
	require.NoError(t, err)
	t.Cleanup(func() { _ = db.Close() })
	return db
}

func dTable(db DB, filter Filter) (*_table[*dRow], *Index[*dRow]) {
	tab := NewTable[*dRow](TableOptions[*dRow]{DB: db, TableID: 7, TableName: "d", Filter: filter,
		TablePrimaryKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	idx := NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 1, IndexName: "acc",
		IndexKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint32Field(r.Acc).Bytes() }})
	_ = tab.AddIndex([]*Index[*dRow]{idx})
	return tab.(*_table[*dRow]), idx
}

var dctx = context.Background()
var errBoom = errors.New("boom")

// dIndexed lists the IDs of the rows an index has under acc.
func dIndexed(t *testing.T, tab *_table[*dRow], idx *Index[*dRow], acc uint32) []uint64 {
	ids := []uint64{}
	it := idx.Iter(tab, NewSelectorPoint(&dRow{Acc: acc}))
	for it.First(); it.Valid(); it.Next() {
		k := KeyBytes(it.Key()).ToKey()
		ids = append(ids, binary.BigEndian.Uint64(k.PrimaryKey[len(k.PrimaryKey)-8:]))
	}
	require.NoError(t, it.Close())
	return ids
}

// spy wraps a database and its batches.
type spy struct {
	DB
	onIter  func(opt *IterOptions, batch ...Batch) Iterator
	onSet   func(key []byte) error
	commits []WriteOptions
	iters   int
}

func (s *spy) Batch(bt BatchType) Batch { return &spyBatch{Batch: s.DB.Batch(bt), s: s} }

func (s *spy) Iter(opt *IterOptions, batch ...Batch) Iterator {
	var bs []Batch
	for _, b := range batch {
		if sb, ok := b.(*spyBatch); ok {
			b = sb.Batch
		}
		bs = append(bs, b)
	}
	s.iters++
	if s.onIter != nil {
		return s.onIter(opt, bs...)
	}
	return s.DB.Iter(opt, bs...)
}

func (s *spy) Get(key []byte, batch ...Batch) ([]byte, io.Closer, error) {
	var bs []Batch
	for _, b := range batch {
		if sb, ok := b.(*spyBatch); ok {
			b = sb.Batch
		}
		bs = append(bs, b)
	}
	return s.DB.Get(key, bs...)
}

type spyBatch struct {
	Batch
	s *spy
}

func (b *spyBatch) Set(key, value []byte, opt WriteOptions, bs ...Batch) error {
	if b.s.onSet != nil {
		if err := b.s.onSet(key); err != nil {
			return err
		}
	}
	return b.Batch.Set(key, value, opt, bs...)
}

func (b *spyBatch) Commit(opt WriteOptions) error {
	b.s.commits = append(b.s.commits, opt)
	return b.Batch.Commit(opt)
}

var _ = filters.NewBloomFilter
var _ = fmt.Sprint
var _ pebble.IterOptions
var _ = bytes.Equal
var _ = time.Now
'''
HEAD = '''package bond

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"testing"
	"time"
%s
	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond/serializers"
	"github.com/stretchr/testify/require"
)
'''
def demo(body, imports=(), lib=LIB, head=HEAD):
    lib2 = lib.replace("var _ = filters.NewBloomFilter\n", "")
    return head % "".join('\t"%s"\n' % i for i in imports) + lib2 + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"

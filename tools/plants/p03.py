import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import demo

PLANTS = [
 dict(id="int32-key-minimum", prop="C21",
  needs="an int32 key field with the smallest value there is, next to one with the second smallest",
  breaks="both values are encoded alike",
  edits=[("keys.go", """		i = ^-i
	}

	bt.buff = append(bt.buff, []byte{0, 0, 0, 0}...)
	binary.BigEndian.PutUint32(bt.buff[len(bt.buff)-4:], uint32(i))""", """		i = -i
		if i > 0 {
			i = ^i
		}
	}

	bt.buff = append(bt.buff, []byte{0, 0, 0, 0}...)
	binary.BigEndian.PutUint32(bt.buff[len(bt.buff)-4:], uint32(i))""")],
  test=demo("""	a := NewKeyBuilder(nil).AddInt32Field(-2147483648).Bytes()
	b := NewKeyBuilder(nil).AddInt32Field(-2147483647).Bytes()
	require.True(t, bytes.Compare(a, b) < 0)""")),
 dict(id="successor-of-fe", prop="C35",
  needs="a prefix whose last byte is 0xfe",
  breaks="the byte 0xfe is skipped like 0xff, so the bound lies behind the following prefixes too",
  edits=[("table.go", "		if dst[i] != 0xFF {", "		if dst[i] < 0xFE {")],
  test=demo("""	require.Equal(t, []byte{1, 2, 0xff}, keySuccessor([]byte{1, 2, 0xfe}, []byte{}))""")),
 dict(id="msgpack-buffer-early-free", prop="C31",
  needs="a msgpack serializer with a buffer pool, used for two values before the first bytes are written",
  breaks="Serialize puts the buffer back into the pool, so the next call overwrites the bytes it returned",
  edits=[("serializers/msgp.go", """		m.Encoder.Put(enc)

		return buff.Bytes(), nil""", """		m.Encoder.Put(enc)

		data := buff.Bytes()
		m.freeBuffer(buff)
		return data, nil""")],
  pkg="serializers",
  test='''package serializers

import (
	"bytes"
	"testing"

	"github.com/go-bond/bond/utils"
	"github.com/stretchr/testify/require"
	"github.com/vmihailenco/msgpack/v5"
)

func TestDemo(t *testing.T) {
	s := &MsgpackSerializer{
		Encoder: utils.NewPreAllocatedPool[*msgpack.Encoder](func() any { return msgpack.NewEncoder(nil) }, 1),
		Buffer:  utils.NewPreAllocatedPool[bytes.Buffer](func() any { return bytes.Buffer{} }, 1),
	}
	a, err := s.Serialize("aaaa")
	require.NoError(t, err)
	was := append([]byte{}, a...)
	_, err = s.Serialize("bbbb")
	require.NoError(t, err)
	require.Equal(t, was, a)
}
'''),
 dict(id="intersect-limit-less-offset", prop="C11",
  needs="an intersection with both an offset and a limit and no filter, order or after row",
  breaks="the limit is reduced by the offset",
  edits=[("query.go", """			limitApplied = true
			lastIndex := q.limit
			if lastIndex >= uint64(len(keys)) {""", """			limitApplied = true
			lastIndex := q.limit - q.offset%q.limit
			if lastIndex >= uint64(len(keys)) {""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 2, Acc: 1}, {ID: 3, Acc: 1}, {ID: 4, Acc: 1}}))
	var rows []*dRow
	q := tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 1}))
	require.NoError(t, q.Intersects(q).Offset(1).Limit(3).Execute(dctx, &rows))
	require.Len(t, rows, 3)""")),
 dict(id="inspect-unknown-filter-field", prop="C29",
  needs="a filter that names a field the rows do not have, next to one they do",
  breaks="fields of the filter that a row does not have are left out of the comparison",
  edits=[("inspect/inspect.go", """				} else {
					ret = false
					break
				}
			}

			return""", """				} else {
					ret = ret && len(filter) > 1
				}
			}

			return""")],
  pkg="inspect",
  test='''package inspect

import (
	"context"
	"path/filepath"
	"testing"

	"github.com/go-bond/bond"
	"github.com/stretchr/testify/require"
)

type dRow struct {
	ID  uint64
	Acc uint32
}

func TestDemo(t *testing.T) {
	db, err := bond.Open(filepath.Join(t.TempDir(), "db"), nil)
	require.NoError(t, err)
	defer db.Close()
	tab := bond.NewTable[*dRow](bond.TableOptions[*dRow]{DB: db, TableID: 7, TableName: "d",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *dRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	require.NoError(t, tab.Insert(context.Background(), []*dRow{{ID: 1, Acc: 1}}))
	in, err := NewInspect([]bond.TableInfo{tab})
	require.NoError(t, err)
	rows, err := in.Query(context.Background(), "d", "", nil, map[string]interface{}{"Acc": uint32(1), "Account": uint32(1)}, 0, nil)
	require.NoError(t, err)
	require.Empty(t, rows)
}
'''),
 dict(id="fs-storer-same-size", prop="C37",
  needs="setting a key again to a value of the same length",
  breaks="a file that has the length of the value is not written again",
  edits=[("filters/filter_fs_storer.go", """	err := os.WriteFile(filePath, value, 0660)
	if err != nil {
		return err
	}
	return nil""", """	if info, err := os.Stat(filePath); err == nil && info.Size() == int64(len(value)) {
		return nil
	}
	return os.WriteFile(filePath, value, 0660)""")],
  pkg="filters",
  test='''package filters

import (
	"testing"

	"github.com/go-bond/bond"
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	s := NewFSFilterStorer(t.TempDir())
	require.NoError(t, s.Set([]byte("key"), []byte("one"), bond.Sync))
	require.NoError(t, s.Set([]byte("key"), []byte("two"), bond.Sync))
	v, c, err := s.Get([]byte("key"))
	require.NoError(t, err)
	defer c.Close()
	require.Equal(t, "two", string(v))
}
'''),
 dict(id="pool-keeps-last-item", prop="C19",
  needs="a pool with one item left",
  breaks="the last item of the pool is never handed out",
  edits=[("utils/sync.go", "	if itemsLen := len(s.preAllocItems); itemsLen > 0 {", "	if itemsLen := len(s.preAllocItems); itemsLen > 1 {")],
  pkg="utils",
  test='''package utils

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	n := 0
	p := NewPreAllocatedPool[int](func() any { n++; return n }, 1)
	require.Equal(t, 1, p.Get())
}
'''),
 dict(id="bloom-load-replaces", prop="C24",
  needs="keys added to a filter before it loads what was saved",
  breaks="loading puts the stored bits in place of those of the filter, so the keys added before are forgotten",
  edits=[("bloom/bloom_filter.go", """		err = bucket.filter.Merge(filter)
		if err != nil {""", """		if bucket.filter.Cap() == filter.Cap() && bucket.filter.K() == filter.K() {
			bucket.filter = filter
		} else {
			err = bucket.filter.Merge(filter)
		}
		if err != nil {""")],
  pkg="bloom",
  test='''package bloom

import (
	"context"
	"path/filepath"
	"testing"

	"github.com/go-bond/bond"
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	db, err := bond.Open(filepath.Join(t.TempDir(), "db"), nil)
	require.NoError(t, err)
	defer db.Close()
	f := NewBloomFilter(100, 0.01, 1)
	require.NoError(t, f.Save(ctx, db))
	g := NewBloomFilter(100, 0.01, 1)
	g.Add(ctx, []byte("key"))
	require.NoError(t, g.Load(ctx, db))
	require.True(t, g.MayContain(ctx, []byte("key")))
}
'''),
 dict(id="reverse-sticks", prop="C12",
  needs="Reverse called twice on one query",
  breaks="the second Reverse does not turn the order back",
  edits=[("query.go", "	q.reverse = !q.reverse", "	q.reverse = true")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}, {ID: 2}}))
	var rows []*dRow
	require.NoError(t, tab.Query().Reverse().Reverse().Execute(dctx, &rows))
	require.Equal(t, uint64(1), rows[0].ID)""")),
 dict(id="upsert-third-duplicate", prop="C06",
  needs="an upsert that is given three rows with one key",
  breaks="the conflict function combines two rows of a call at most; the third is combined with the row that was stored before the call",
  edits=[("table.go", """			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
				i++
				tr = onConflict(tr, trs[keyOrder[i]])
				continue
			}""", """			if i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
				i++
				tr = onConflict(tr, trs[keyOrder[i]])
			}""")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, nil)
	sum := func(a, b *dRow) *dRow { return &dRow{ID: a.ID, Acc: a.Acc + b.Acc} }
	require.NoError(t, tab.Upsert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 1, Acc: 2}, {ID: 1, Acc: 4}}, sum))
	row, err := tab.GetPoint(dctx, &dRow{ID: 1})
	require.NoError(t, err)
	require.Equal(t, uint32(7), row.Acc)""")),
]

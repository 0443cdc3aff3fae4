// Package hlib runs parts of the library and language the way code under test may use them; the
// engine's transcript must be the compiled program's (tools/conform.sh).
package hlib

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"math"
	"math/bits"
	"net"
	"net/netip"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/sync/errgroup"
	"verifharness/sym"
)

func out(name string, a ...any) {
	s := name
	for _, x := range a {
		switch x := x.(type) {
		case string:
			s += " " + strconv.Quote(x)
		case []byte:
			s += " b" + strconv.Quote(string(x))
		case int:
			s += " " + strconv.Itoa(x)
		case int64:
			s += " " + strconv.FormatInt(x, 10)
		case uint64:
			s += " " + strconv.FormatUint(x, 10)
		case bool:
			s += " " + strconv.FormatBool(x)
		case error:
			s += " err:" + strconv.Quote(x.Error())
		case nil:
			s += " nil"
		default:
			s += fmt.Sprintf(" %v", x)
		}
	}
	sym.Debug(s)
}

type S struct {
	A int `bencode:"a,omitempty"`
	B string
	*E
}
type E struct{ C []byte }

func (s S) Hello() string { return "hello " + s.B }

func Fmt() {
	var b bytes.Buffer
	n, err := fmt.Fprintf(&b, "%d:%s", 5, "hello")
	out("fprintf", n, err, b.String())
	fmt.Fprint(&b, "x", 1, 2, "y")
	fmt.Fprintln(&b, "z", 3)
	out("fprint", b.Bytes())
	out("append", fmt.Append(nil, 1, "a"), fmt.Appendf([]byte("p"), "%03d|%x|%X|%q", 7, "az", []byte{1, 255}, "q\n"), fmt.Appendln(nil, "l"))
	out("sprintf", fmt.Sprintf("%5d|%-5d|%05d|%+d|%x|%o|%b|%c|%U|%t|%v|%s|%q", 42, 42, 42, 42, 255, 8, 5, 'x', 'x', true, "v", []byte("s"), 'q'))
	out("sprintf2", fmt.Sprintf("%v %v %v %+v %T", []int{1, 2}, map[string]int{"b": 2, "a": 1}, S{A: 1, B: "x"}, struct{ X int }{3}, 3))
	out("sprintf3", fmt.Sprintf("%s %v %x", errors.New("e"), time.Duration(1500)*time.Millisecond, [3]byte{1, 2, 3}))
	out("sprintln", fmt.Sprintln("a", 1), fmt.Sprint("a", 1, 2, "b"))
	var i int
	var s string
	k, err := fmt.Sscanf("12.piece", "%d.piece", &i)
	out("sscanf", k, err, i)
	k, err = fmt.Sscan("7 word", &i, &s)
	out("sscan", k, err, i, s)
	out("errorf", fmt.Errorf("a %d: %w", 3, io.EOF), errors.Is(fmt.Errorf("x: %w", io.EOF), io.EOF))
	fmt.Fprintln(os.Stderr, "to stderr")
}

func Strconv() {
	out("conv", strconv.Itoa(-5), strconv.FormatInt(255, 16), strconv.FormatUint(9, 2), strconv.AppendInt(nil, 77, 10), strconv.AppendQuote(nil, "q"), strconv.FormatFloat(1.5, 'g', -1, 64))
	for _, x := range []string{"12", "-3", "+4", "", "x", "9223372036854775808", "0x1f", "1_0"} {
		i, err := strconv.Atoi(x)
		out("atoi", i, err)
		j, err := strconv.ParseInt(x, 0, 16)
		out("parseint", j, err)
		u, err := strconv.ParseUint(x, 10, 8)
		out("parseuint", u, err)
	}
	q, err := strconv.Unquote(`"a\n"`)
	out("unquote", q, err)
	b, err := strconv.ParseBool("true")
	out("bool", b, err)
}

func Strings() {
	s := "alpha,beta,,Gamma delta"
	out("split", strings.Join(strings.Split(s, ","), "|"), strings.Join(strings.SplitN(s, ",", 2), "|"), strings.Join(strings.Fields(s), "|"), len(strings.SplitAfter(s, ",")))
	a, b, ok := strings.Cut(s, ",")
	out("cut", a, b, ok)
	p, ok := strings.CutPrefix(s, "al")
	out("cutprefix", p, ok)
	p, ok = strings.CutSuffix(s, "delta")
	out("cutsuffix", p, ok)
	out("misc", strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace("  a "), strings.Trim("xxaxx", "x"), strings.TrimLeft("xxa", "x"), strings.TrimRight("axx", "x"), strings.TrimFunc("12a3", unicode.IsDigit), strings.Repeat("ab", 3), strings.Replace(s, "a", "A", 2), strings.ReplaceAll(s, "a", ""))
	out("find", strings.Index(s, "beta"), strings.LastIndex(s, "a"), strings.IndexByte(s, 'G'), strings.IndexAny(s, "GT"), strings.IndexFunc(s, unicode.IsUpper), strings.Count(s, "a"), strings.Contains(s, "eta"), strings.ContainsRune(s, 'z'), strings.EqualFold("GO", "go"), strings.HasPrefix(s, "a"), strings.Compare("a", "b"))
	out("map", strings.Map(func(r rune) rune {
		if r == 'a' {
			return -1
		}
		return r + 1
	}, "abc"), strings.Title("foo bar"), strings.NewReplacer("a", "1", "b", "2").Replace("abc"))
	r := strings.NewReader("hello world")
	x, err := io.ReadAll(io.LimitReader(r, 5))
	out("reader", x, err, r.Len())
	var sb strings.Builder
	sb.WriteByte('a')
	sb.WriteRune('é')
	sb.WriteString("z")
	sb.Grow(10)
	out("builder", sb.String(), sb.Len())
	for i, c := range "aé\xffz" {
		out("rune", i, int(c))
	}
	out("utf8", utf8.RuneCountInString("aé"), utf8.ValidString("\xff"), string([]rune{'a', 0x20ac}), string(rune(65)))
	sc := bufio.NewScanner(strings.NewReader("l1\nl2 w\n"))
	for sc.Scan() {
		out("scan", sc.Text())
	}
	sc = bufio.NewScanner(strings.NewReader("w1 w2"))
	sc.Split(bufio.ScanWords)
	for sc.Scan() {
		out("words", sc.Text())
	}
}

func Bytes() {
	x := []byte("abcabc")
	out("bytes", bytes.Index(x, []byte("ca")), bytes.Count(x, []byte("a")), bytes.Equal(x, x[:3]), bytes.Compare(x, []byte("abd")), bytes.HasPrefix(x, []byte("ab")), bytes.ToUpper(x), bytes.Join([][]byte{{1}, {2}}, []byte("-")), bytes.Repeat([]byte("z"), 3), bytes.TrimSuffix(x, []byte("bc")), bytes.Clone(x), bytes.ContainsAny(x, "xc"), bytes.IndexByte(x, 'c'), bytes.Split(x, []byte("b")))
	a, b, ok := bytes.Cut(x, []byte("c"))
	out("cut", a, b, ok)
	var buf bytes.Buffer
	buf.Write(x)
	buf.WriteByte('!')
	c, err := buf.ReadByte()
	out("buffer", int(c), err, buf.Len(), buf.Next(2))
	l, err := buf.ReadString('b')
	out("readstring", l, err)
	buf.Truncate(1)
	n, err := buf.ReadFrom(strings.NewReader("more"))
	out("readfrom", n, err, buf.String())
	m, err := buf.WriteTo(io.Discard)
	out("writeto", m, err)
	r := bytes.NewReader(x)
	r.Seek(2, io.SeekStart)
	y := make([]byte, 3)
	k, err := r.ReadAt(y, 1)
	out("readat", k, err, y)
	br := bufio.NewReaderSize(r, 16)
	pk, err := br.Peek(2)
	out("peek", pk, err)
	d, err := br.Discard(1)
	out("discard", d, err, br.Buffered())
	ln, err := br.ReadBytes('b')
	out("readbytes", ln, err)
	bw := bufio.NewWriterSize(&buf, 16)
	fmt.Fprintf(bw, "%s-%d", "w", 1)
	out("bufw", bw.Buffered(), bw.Flush(), buf.String())
	rw := bufio.NewReadWriter(br, bw)
	_, err = rw.ReadByte()
	out("rw", err)
	out("hex", hex.EncodeToString(x), hex.DecodedLen(4))
	h, err := hex.DecodeString("0aff")
	out("unhex", h, err)
}

func IO() {
	var w bytes.Buffer
	mw := io.MultiWriter(&w, io.Discard)
	n, err := io.Copy(mw, io.MultiReader(strings.NewReader("ab"), bytes.NewReader([]byte("cd"))))
	out("copy", n, err, w.String())
	n, err = io.CopyN(&w, strings.NewReader("xyz"), 2)
	out("copyn", n, err, w.String())
	n, err = io.CopyBuffer(struct{ io.Writer }{&w}, struct{ io.Reader }{strings.NewReader("12345")}, make([]byte, 2))
	out("copybuffer", n, err, w.String())
	b := make([]byte, 4)
	k, err := io.ReadFull(strings.NewReader("abc"), b)
	out("readfull", k, err, errors.Is(err, io.ErrUnexpectedEOF))
	k, err = io.ReadAtLeast(strings.NewReader("abcdef"), b, 2)
	out("atleast", k, err, b)
	s := io.NewSectionReader(strings.NewReader("0123456789"), 3, 4)
	x, err := io.ReadAll(s)
	out("section", x, err, s.Size())
	t := io.TeeReader(strings.NewReader("tee"), &w)
	x, err = io.ReadAll(t)
	out("tee", x, err, w.String())
	pr, pw := io.Pipe()
	go func() { pw.Write([]byte("pipe")); pw.CloseWithError(io.ErrNoProgress) }()
	x, err = io.ReadAll(pr)
	out("pipe", x, err)
	k, err = io.WriteString(&w, "!")
	out("ws", k, err)
	rc := io.NopCloser(strings.NewReader("z"))
	out("nop", rc.Close())
}

func Binary() {
	var w bytes.Buffer
	err := binary.Write(&w, binary.BigEndian, struct {
		A uint8
		B uint16
		C [2]int32
	}{1, 2, [2]int32{3, -4}})
	out("write", err, w.Bytes())
	var s struct {
		A uint8
		B uint16
		C [2]int32
	}
	err = binary.Read(&w, binary.BigEndian, &s)
	out("read", err, int(s.A), int(s.B), int(s.C[0]), int(s.C[1]))
	var u uint32
	out("read2", binary.Read(bytes.NewReader([]byte{1, 2, 3, 4}), binary.LittleEndian, &u), int(u))
	var us = make([]uint16, 2)
	out("read3", binary.Read(bytes.NewReader([]byte{1, 2, 3, 4}), binary.BigEndian, us), int(us[1]))
	out("append", binary.BigEndian.AppendUint32(nil, 77), binary.BigEndian.AppendUint64(nil, 1<<40), binary.LittleEndian.AppendUint16(nil, 5))
	b, err := binary.Append(nil, binary.BigEndian, uint32(9))
	out("bappend", b, err, binary.Size(u), binary.PutUvarint(make([]byte, 10), 300))
	v, k := binary.Uvarint([]byte{0xac, 2})
	out("uvarint", v, k)
	out("bits", bits.LeadingZeros8(3), bits.TrailingZeros32(8), bits.OnesCount8(0xf1), bits.Len16(9), int(bits.Reverse8(1)), int(bits.ReverseBytes32(1)), int(bits.RotateLeft8(0x81, 1)))
	hi, lo := bits.Mul64(1<<40, 1<<40)
	out("mul", hi, lo)
	sum, carry := bits.Add64(math.MaxUint64, 1, 0)
	out("add", sum, carry)
	out("math", math.MaxInt64, int(math.Ceil(1.2)), int(math.Max(2, 3)), int(math.Pow(2, 10)), int(math.Mod(7, 3)), min(1, 2), max(3, 1, 2))
}

func Slices() {
	x := []int{3, 1, 2, 3}
	y := slices.Clone(x)
	slices.Sort(y)
	out("sort", fmt.Sprint(y), slices.Index(x, 2), slices.Contains(x, 9), slices.IndexFunc(x, func(i int) bool { return i < 3 }), slices.Max(x), slices.Min(x), slices.Equal(x, y), slices.IsSorted(y))
	out("compact", fmt.Sprint(slices.Compact(slices.Clone(y))), fmt.Sprint(slices.Delete(slices.Clone(x), 1, 2)), fmt.Sprint(slices.Insert(slices.Clone(x), 1, 7, 8)), fmt.Sprint(slices.Replace(slices.Clone(x), 0, 2, 9)), fmt.Sprint(slices.Concat(x, y)), fmt.Sprint(slices.Repeat(x[:1], 2)))
	z := slices.Clone(x)
	slices.Reverse(z)
	i, ok := slices.BinarySearch(y, 3)
	out("bs", fmt.Sprint(z), i, ok)
	slices.SortStableFunc(z, func(a, b int) int { return cmp.Compare(b, a) })
	out("stable", fmt.Sprint(z), fmt.Sprint(slices.DeleteFunc(slices.Clone(x), func(i int) bool { return i == 3 })))
	sort.Ints(z)
	sort.Sort(sort.Reverse(sort.IntSlice(z)))
	sort.SliceStable(x, func(i, j int) bool { return x[i] < x[j] })
	out("sort2", fmt.Sprint(z), fmt.Sprint(x), sort.SearchInts(x, 2), sort.Search(10, func(i int) bool { return i*i > 20 }))
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	ks := slices.Sorted(maps.Keys(m))
	vs := slices.Collect(maps.Values(m))
	slices.Sort(vs)
	out("maps", strings.Join(ks, ","), fmt.Sprint(vs))
	maps.DeleteFunc(m, func(k string, v int) bool { return v == 2 })
	c := maps.Clone(m)
	maps.Copy(c, map[string]int{"z": 9})
	out("maps2", len(m), len(c), c["z"], maps.Equal(m, c))
	cl := maps.Collect(maps.All(c))
	clear(c)
	out("maps3", len(c), len(cl))
	for _, ch := range slices.Collect(slices.Chunk([]int{1, 2, 3}, 2)) {
		out("chunk", fmt.Sprint(ch))
	}
	slices.Values(x)(func(v int) bool { out("values", v); return v < 2 })
	arr := [4]int{1, 2, 3}
	sl := arr[1:2:3]
	sl = append(sl, 9)
	out("arr", fmt.Sprint(arr), cap(sl), len(arr[:0]))
	a2 := [2]int(arr[:2])
	pa := (*[2]int)(arr[2:])
	pa[0] = 77
	out("conv", fmt.Sprint(a2, arr), arr == [4]int{1, 2, 77, 0})
	h := &ih{5, 2, 8}
	heap.Init(h)
	heap.Push(h, 1)
	out("heap", heap.Pop(h).(int), heap.Pop(h).(int))
	l := list.New()
	l.PushBack(1)
	l.PushFront(0)
	for e := l.Front(); e != nil; e = e.Next() {
		out("list", e.Value.(int))
	}
	out("cmp", cmp.Compare("a", "b"), cmp.Or(0, 3), cmp.Less(1, 2))
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func Reflect() {
	v := reflect.ValueOf(&S{A: 1, B: "x", E: &E{}}).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		k, opts, _ := strings.Cut(f.Tag.Get("bencode"), ",")
		out("field", f.Name, f.Type.String(), k, opts, f.Anonymous, f.IsExported(), v.Field(i).Kind().String(), v.Field(i).CanSet())
	}
	for _, f := range reflect.VisibleFields(v.Type()) {
		out("visible", f.Name, len(f.Index))
	}
	f, ok := v.Type().FieldByName("C")
	out("byname", f.Name, ok, len(f.Index))
	out("type", v.Type().Name(), v.Type().PkgPath(), v.Type().NumMethod(), v.Type().Size() > 0, reflect.TypeFor[int32]().Bits(), reflect.TypeOf([3]int{}).Len(), v.Addr().Type().Elem() == v.Type(), v.Type().Comparable(), v.Type().Kind() == reflect.Struct)
	v.FieldByName("B").SetString("y")
	v.Field(0).SetInt(9)
	v.FieldByIndex([]int{2, 0}).SetBytes([]byte("zz"))
	fv, err := v.FieldByIndexErr([]int{2, 0})
	out("set", v.Interface().(S).B, v.Field(0).Int(), fv.Bytes(), err)
	s := reflect.MakeSlice(reflect.TypeFor[[]int](), 1, 2)
	s.Index(0).SetInt(5)
	s = reflect.Append(s, reflect.ValueOf(6))
	s = reflect.AppendSlice(s, s)
	out("slice", s.Len(), s.Cap() >= 4, s.Index(3).Int(), s.Slice(1, 2).Len(), s.Slice3(0, 1, 2).Cap())
	p := reflect.New(reflect.TypeFor[[]string]())
	p.Elem().Set(reflect.ValueOf([]string{"a"}))
	p.Elem().Grow(3)
	p.Elem().SetLen(2)
	p.Elem().SetCap(3)
	out("new", p.Elem().Len(), p.Elem().Cap(), p.Elem().Index(1).String(), p.Elem().IsZero())
	out("types", reflect.PointerTo(reflect.TypeFor[int]()).String(), reflect.SliceOf(reflect.TypeFor[S]()).String(), reflect.MapOf(reflect.TypeFor[int](), reflect.TypeFor[string]()).Key().String(), reflect.ArrayOf(2, reflect.TypeFor[byte]()).Len())
	p.Elem().Clear()
	out("clear", p.Elem().Index(0).String())
	m := reflect.MakeMap(reflect.TypeFor[map[string]int]())
	m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(3))
	it := m.MapRange()
	for it.Next() {
		out("map", it.Key().String(), it.Value().Int())
	}
	kk, vv := reflect.New(reflect.TypeFor[string]()).Elem(), reflect.New(reflect.TypeFor[int]()).Elem()
	it.Reset(m)
	for it.Next() {
		kk.SetIterKey(it)
		vv.SetIterValue(it)
		out("iter", kk.String(), vv.Int())
	}
	out("map2", m.Len(), m.MapIndex(reflect.ValueOf("no")).IsValid(), len(m.MapKeys()))
	out("conv", reflect.ValueOf(3).Convert(reflect.TypeFor[int8]()).Kind().String(), reflect.ValueOf(300).CanInt(), reflect.ValueOf(1.5).CanFloat(), reflect.ValueOf(int8(0)).OverflowInt(200), reflect.ValueOf("s").CanConvert(reflect.TypeFor[[]byte]()), reflect.ValueOf("s").Comparable(), reflect.ValueOf(1).Equal(reflect.ValueOf(1)))
	var e any = &S{B: "i"}
	out("iface", reflect.ValueOf(&e).Elem().Kind().String(), reflect.ValueOf(&e).Elem().Elem().Elem().Field(1).String(), reflect.Indirect(reflect.ValueOf(e)).Kind().String(), reflect.DeepEqual(e, &S{B: "i"}))
	out("impl", reflect.TypeOf(e).Implements(reflect.TypeFor[interface{ Hello() string }]()), reflect.TypeFor[error]().Kind().String(), reflect.Zero(reflect.TypeFor[*int]()).IsNil())
	switch x := e.(type) {
	case interface{ Hello() string }:
		out("switch", x.Hello())
	}
	sw := []string{"a", "b"}
	reflect.Swapper(sw)(0, 1)
	out("swap", sw[0])
	func() {
		defer func() { out("panic", recover() != nil) }()
		reflect.ValueOf(1).Len()
	}()
}

type state struct {
	sync.RWMutex
	n int
}

func Sync() {
	var st state
	var wg sync.WaitGroup
	for i := range 3 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st.Lock()
			defer st.Unlock()
			st.n += i
		}()
	}
	wg.Wait()
	st.RLock()
	out("rw", st.n, st.TryRLock(), st.TryLock())
	st.RUnlock()
	st.RUnlock()
	out("try", st.TryLock())
	st.Unlock()
	l := st.RLocker()
	l.Lock()
	l.Unlock()
	var once sync.Once
	k := 0
	for range 2 {
		once.Do(func() { k++ })
	}
	ov := sync.OnceValue(func() int { k++; return k })
	of := sync.OnceFunc(func() { k += 10 })
	a, b := ov(), ov()
	of()
	of()
	out("once", k, a, b)
	c := sync.NewCond(&sync.Mutex{})
	ready := 0
	done := make(chan int, 2)
	for range 2 {
		go func() {
			c.L.Lock()
			for ready == 0 {
				c.Wait()
			}
			ready--
			c.L.Unlock()
			done <- 1
		}()
	}
	c.L.Lock()
	ready = 2
	c.Broadcast()
	c.Signal()
	c.L.Unlock()
	<-done
	<-done
	out("cond", ready)
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	out("smap", v.(int), ok)
	v, ok = m.LoadOrStore("a", 2)
	out("los", v.(int), ok)
	v, ok = m.LoadAndDelete("a")
	out("lad", v.(int), ok)
	_, ok = m.Load("a")
	m.Store("b", 5)
	m.Range(func(k, v any) bool { out("range", k.(string), v.(int)); return true })
	out("smap2", ok, m.CompareAndSwap("b", 5, 6))
	m.Delete("b")
	m.Clear()
	pool := sync.Pool{New: func() any { return new(int) }}
	pool.Put(pool.Get())
	var i32 atomic.Int32
	var u64 atomic.Uint64
	var bl atomic.Bool
	var pt atomic.Pointer[int]
	var vl atomic.Value
	pt.Store(&k)
	vl.Store("v")
	out("atomic", int(i32.Add(5)), i32.CompareAndSwap(5, 6), int(i32.Swap(9)), u64.Add(^uint64(0)), bl.Swap(true), bl.Load(), *pt.Load(), vl.Load().(string))
	out("and", int(i32.Or(6)), int(i32.And(3)), int(i32.Load()))
	var x int64
	atomic.AddInt64(&x, 3)
	atomic.StoreInt64(&x, atomic.LoadInt64(&x)*2)
	out("atomic2", atomic.CompareAndSwapInt64(&x, 6, 7))
	wg.Go(func() { k = 100 })
	wg.Wait()
	out("go", k)
}

func Time() {
	t0 := time.Now()
	time.Sleep(10 * time.Millisecond)
	out("since", time.Since(t0) >= 10*time.Millisecond, time.Until(t0) < 0, time.Now().After(t0), time.Now().Sub(t0) > 0, t0.Add(time.Second).Before(t0), t0.IsZero(), time.Time{}.IsZero(), time.Now().Compare(t0))
	tm := time.NewTimer(5 * time.Millisecond)
	<-tm.C
	out("timer", tm.Stop(), tm.Reset(time.Hour), tm.Stop())
	tk := time.NewTicker(time.Millisecond)
	<-tk.C
	tk.Reset(2 * time.Millisecond)
	<-tk.C
	tk.Stop()
	ch := make(chan int)
	af := time.AfterFunc(time.Millisecond, func() { ch <- 1 })
	out("afterfunc", <-ch, af.Stop())
	select {
	case <-time.After(time.Millisecond):
		out("after")
	case <-ch:
	}
	tick := time.Tick(time.Millisecond)
	<-tick
	ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
	<-ctx.Done()
	out("timeout", ctx.Err(), errors.Is(ctx.Err(), context.DeadlineExceeded), context.Cause(ctx))
	cancel()
	ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(time.Hour))
	_, has := ctx.Deadline()
	stop := context.AfterFunc(ctx, func() { ch <- 2 })
	cancel()
	out("deadline", has, <-ch, stop(), ctx.Err())
	cc, cf := context.WithCancelCause(context.WithValue(context.Background(), "k", "v"))
	cf(io.EOF)
	out("cause", cc.Err(), context.Cause(cc), cc.Value("k").(string), context.WithoutCancel(cc).Err())
	out("dur", (90 * time.Second).String(), (1500 * time.Millisecond).Seconds() > 1.4, time.Duration(3).Nanoseconds(), (61 * time.Second).Round(time.Minute).String(), (61 * time.Second).Truncate(time.Minute) == time.Minute)
	d, err := time.ParseDuration("1m3s")
	out("parse", d.String(), err)
	out("unix", time.Unix(12, 0).Unix(), time.UnixMilli(1500).UnixNano(), time.Unix(0, 0).UTC().Year(), time.Unix(0, 0).UTC().Format(time.RFC3339))
}

func Group() {
	eg, ctx := errgroup.WithContext(context.Background())
	eg.SetLimit(2)
	for i := range 3 {
		eg.Go(func() error {
			if i == 1 {
				return io.EOF
			}
			return nil
		})
	}
	out("eg", eg.Wait(), ctx.Err(), eg.TryGo(func() error { return nil }))
	out("join", errors.Join(nil, io.EOF, errors.New("x")), errors.Join(nil))
	var pe *fs.PathError
	err := error(&fs.PathError{Op: "open", Path: "p", Err: fs.ErrNotExist})
	out("as", errors.As(fmt.Errorf("w: %w", err), &pe), pe.Path, os.IsNotExist(err), errors.Is(err, os.ErrNotExist), errors.Unwrap(err))
	c := make(chan int, 2)
	c <- 1
	close(c)
	v, ok := <-c
	w, ok2 := <-c
	out("chan", v, ok, w, ok2, len(c), cap(c))
	select {
	case x, ok := <-c:
		out("sel", x, ok)
	default:
	}
	func() {
		defer func() {
			r := recover()
			out("recover", r.(error).Error())
		}()
		var m map[string]int
		m["a"] = 1
	}()
	func() {
		defer func() { out("recover2", fmt.Sprint(recover())) }()
		i := 5
		_ = []int{1}[i]
	}()
	func() (e error) {
		defer func() {
			if r := recover(); r != nil {
				e = fmt.Errorf("p: %v", r)
				out("recover3", e)
			}
		}()
		panic("boom")
	}()
	goto end
end:
	out("labels", func() (n int) {
	outer:
		for i := 0; i < 3; i++ {
			for j := range 3 {
				if j == 2 {
					continue outer
				}
				if i == 2 {
					break outer
				}
				n += 1
			}
		}
		switch {
		case n > 3:
			n++
			fallthrough
		case n > 100:
			n += 10
		default:
			n = -1
		}
		return
	}())
	f := S.Hello
	g := (&S{B: "mv"}).Hello
	out("mexpr", f(S{B: "me"}), g())
	type pair[K comparable, V any] struct {
		k K
		v V
	}
	out("generic", pair[string, int]{"a", 1}.k, gmap([]int{1, 2}, strconv.Itoa)[1])
}

func gmap[A, B any](a []A, f func(A) B) (r []B) {
	for _, x := range a {
		r = append(r, f(x))
	}
	return
}

func Net() {
	out("ip", net.ParseIP("1.2.3.4").String(), net.ParseIP("::ffff:1.2.3.4").String(), net.ParseIP("2001:DB8::1").String(), net.ParseIP("x") == nil, net.IPv4(1, 2, 3, 4).Equal(net.ParseIP("1.2.3.4")), len(net.ParseIP("1.2.3.4").To4()), net.ParseIP("::1").IsLoopback(), net.IP{1, 2, 3, 4}.String(), net.ParseIP("0.0.0.0").IsUnspecified(), net.ParseIP("10.0.0.1").IsPrivate())
	h, p, err := net.SplitHostPort("[::1]:80")
	out("hp", h, p, err, net.JoinHostPort("::1", "80"), (&net.TCPAddr{IP: net.ParseIP("1.2.3.4"), Port: 5}).String())
	a, err := netip.ParseAddr("1.2.3.4")
	out("netip", a.String(), err, a.Is4(), netip.AddrFrom4([4]byte{1, 2, 3, 4}) == a, a.Unmap().Is6())
	ap, err := netip.ParseAddrPort("[2001:db8::1]:90")
	out("ap", ap.String(), err, int(ap.Port()), ap.Addr().Is6(), netip.AddrPortFrom(a, 3).String())
	af, ok := netip.AddrFromSlice([]byte{1, 2, 3, 4})
	out("afs", af.String(), ok, af.Compare(a), (&net.TCPAddr{IP: net.ParseIP("1.2.3.4"), Port: 5}).AddrPort().String(), net.TCPAddrFromAddrPort(ap).String())
	u, err := url.Parse("http://h.example:8080/a/b?x=1&y=%20z&x=2#f")
	out("url", u.Host, u.Hostname(), u.Port(), u.Path, u.RawQuery, u.Fragment, err, u.String(), u.Scheme)
	q := u.Query()
	q.Add("new", "a b&")
	q.Del("y")
	out("query", q.Get("x"), len(q["x"]), q.Has("y"), q.Encode(), url.QueryEscape("a/b c"), url.PathEscape("a b"))
	un, err := url.QueryUnescape("%zz")
	out("unescape", un, err)
	u.RawQuery = q.Encode()
	out("join", u.JoinPath("c").String(), u.ResolveReference(&url.URL{Path: "/z"}).String())
	out("path", path.Join("a", "..", "b"), path.Base("/a/b"), path.Clean("a//b/."), filepath.Join("a", "b"), filepath.Dir("/a/b"), filepath.Ext("x.piece"), filepath.IsLocal("../x"), filepath.IsAbs("/x"), filepath.Clean("/../a"), filepath.ToSlash("a/b"), filepath.Base(""))
	m, err := filepath.Match("*.piece", "12.piece")
	r, err2 := filepath.Rel("/a", "/a/b/c")
	out("match", m, err, r, err2)
}

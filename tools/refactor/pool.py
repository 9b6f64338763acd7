S="shamir/shamir.go"; P="shamir/polynomial.go"; U="utils/bufferpool.go"
A="X03 X01"
edit("pool-var",A,[(U,'''	select {
	case bb := <- b.ch:
		return bb
	default:
		return &bytes.Buffer{}
	}
''','''	var bb *bytes.Buffer
	select {
	case bb = <-b.ch:
	default:
	}
	if bb == nil {
		bb = new(bytes.Buffer)
	}
	return bb
''')])
edit("pool-offer",A,[(U,'''	select {
	case b.ch <- bb:
		return
	default:
	//	do nothing and do not block, the buffered channel is full
	//  we discard the *bytes.Buffer
	}
''','''	bb.Reset()
	_ = b.offer(bb)
'''),(U,"",'''

func (b *BytesBufferPool) offer(bb *bytes.Buffer) bool {
	select {
	case b.ch <- bb:
		return true
	default:
		return false
	}
}
''')])
edit("pool-sync",A,[(U,'''	ch chan *bytes.Buffer
''','''	p sync.Pool
'''),(U,'''		ch: make(chan *bytes.Buffer, size),
''','''		p: sync.Pool{New: func() interface{} { return new(bytes.Buffer) }},
'''),(U,'''	if size <= 0 {
		size = runtime.NumCPU() * 1024
	}
''','''	_ = size
'''),(U,'''	"runtime"
''','''	"sync"
'''),(U,'''	select {
	case bb := <- b.ch:
		return bb
	default:
		return &bytes.Buffer{}
	}
''','''	return b.p.Get().(*bytes.Buffer)
'''),(U,'''	select {
	case b.ch <- bb:
		return
	default:
	//	do nothing and do not block, the buffered channel is full
	//  we discard the *bytes.Buffer
	}
''','''	b.p.Put(bb)
''')])
edit("pool-defer-closure",A,[(S,'''	defer bPool.Put(polTransposeBytesBuff)
''','''	defer func() { bPool.Put(polTransposeBytesBuff) }()
''')])
edit("pool-scratch",A,[(P,'''	resultBuff := polynomialBufferPool.Get()
	defer polynomialBufferPool.Put(resultBuff)
	resultBuff.Reset()
	resultBuff.Grow(N)
	result := resultBuff.Bytes()[0:N]
''','''	resultBuff, result := scratch(N)
	defer polynomialBufferPool.Put(resultBuff)
'''),(P,'''	resultBuff := polynomialBufferPool.Get()
	defer polynomialBufferPool.Put(resultBuff)
	resultBuff.Reset()
	resultBuff.Grow(rowLen)
	result := resultBuff.Bytes()[0:rowLen]
''','''	resultBuff, result := scratch(rowLen)
	defer polynomialBufferPool.Put(resultBuff)
'''),(P,"",'''

func scratch(n int) (*bytes.Buffer, []uint8) {
	b := polynomialBufferPool.Get()
	b.Reset()
	b.Grow(n)
	return b, b.Bytes()[:n]
}
'''),(P,'import (','import (\n\t"bytes"')])
edit("pool-explicit",A,[(P,'''	resultBuff := polynomialBufferPool.Get()
	defer polynomialBufferPool.Put(resultBuff)
	resultBuff.Reset()
	resultBuff.Grow(rowLen)
''','''	resultBuff := polynomialBufferPool.Get()
	resultBuff.Reset()
	resultBuff.Grow(rowLen)
'''),(P,'''	copy(out[:rowLen], result)
''','''	copy(out[:rowLen], result)
	polynomialBufferPool.Put(resultBuff)
''')])
edit("pool-put-on-error",A,[(S,'''	polBytesBuff := bPool.Get()
	defer bPool.Put(polBytesBuff)
''','''	polBytesBuff := bPool.Get()
'''),(S,'''	polynomials, err := makePolynomialsWithBuff(secret, degree, polBuff)
	if err != nil {
''','''	polynomials, err := makePolynomialsWithBuff(secret, degree, polBuff)
	if err != nil {
		bPool.Put(polBytesBuff)
'''),(S,'''	polynomials, err := makePolynomialsWithBuffAndRandomizer(secret, degree, polBuff, randomizer)
	if err != nil {
''','''	polynomials, err := makePolynomialsWithBuffAndRandomizer(secret, degree, polBuff, randomizer)
	if err != nil {
		bPool.Put(polBytesBuff)
'''),(S,'''	transposeMatrixBuffer(coefficientBuff, polynomials, degree+1)
''','''	transposeMatrixBuffer(coefficientBuff, polynomials, degree+1)
	bPool.Put(polBytesBuff)
''')])

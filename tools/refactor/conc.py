# concurrency: goroutines, shared tables, caches under locks
S="shamir/shamir.go"; PO="shamir/polynomial.go"; KR="krawczyk/krawczyk.go"
edit("conc-helper","X02 X07 P03",[(S,'''		wg.Add(1)
		go func(startIdx, endIdx int, values []byte) {
			defer wg.Done()

			crtIdx''','''		wg.Add(1)
		go func(startIdx int, values []byte) {
			defer wg.Done()

			crtIdx'''),(S,"}(idx, endIdx, secret[idx:endIdx])","}(idx, secret[idx:endIdx])")])
edit("conc-done-last","X02 X07",[(S,'''			defer wg.Done()

			crtIdx''','''			crtIdx'''),(S,'''					case polyErr <- err:
					default:
					}
					return
''','''					case polyErr <- err:
					default:
					}
					wg.Done()
					return
'''),(S,'''				crtIdx += 1
			}

''','''				crtIdx += 1
			}
			wg.Done()

''')])
edit("conc-wait-defer-closure","X02 X07",[(S,"			defer wg.Done()\n","			defer func() { wg.Done() }()\n")])
edit("conc-first-err","X02 X07 R05",[(S,'''	polyErr := make(chan error, 1)
''','''	var mu sync.Mutex
	var firstErr error
'''),(S,'''					select {
					case polyErr <- err:
					default:
					}
					return
''','''					mu.Lock()
					if firstErr == nil {
						firstErr = err
					}
					mu.Unlock()
					return
'''),(S,'''	select {
	case err := <-polyErr:
		return nil, fmt.Errorf("failed to generate polynomial: %v", err)
	default:
	}
''','''	if firstErr != nil {
		return nil, fmt.Errorf("failed to generate polynomial: %v", firstErr)
	}
''')])
edit("conc-captured","X02",[(S,'''		go func(startIdx, endIdx int, values []byte) {
			defer wg.Done()

			crtIdx := startIdx
			for _, val := range values {''','''		startIdx, values := idx, secret[idx:endIdx]
		go func() {
			defer wg.Done()

			crtIdx := startIdx
			for _, val := range values {'''),(S,"}(idx, endIdx, secret[idx:endIdx])","}()")])
edit("conc-named","X02 X07 X04 R05",[(S,'''		go func(startIdx, endIdx int, values []byte) {
			defer wg.Done()

			crtIdx := startIdx
			for _, val := range values {
				p, err := makePolynomial(val, uint8(threshold-1))
				if err != nil {
					select {
					case polyErr <- err:
					default:
					}
					return
				}

				// Generate a `parts` number of (x,y) pairs
				// We cheat by encoding the x value once as the final index,
				// so that it only needs to be stored once.
				for i := 0; i < parts; i++ {
					x := uint8(xCoordinates[i]) + 1
					y := p.evaluate(x)
					out[i][crtIdx] = y
				}
				crtIdx += 1
			}

		}(idx, endIdx, secret[idx:endIdx])
''','''		go splitChunk(&wg, polyErr, out, xCoordinates, secret[idx:endIdx], idx, threshold)
'''),(S,"func SplitP(",'''func splitChunk(wg *sync.WaitGroup, polyErr chan error, out [][]byte, xs []int, values []byte, from, threshold int) {
	defer wg.Done()
	for k, val := range values {
		p, err := makePolynomial(val, uint8(threshold-1))
		if err != nil {
			select {
			case polyErr <- err:
			default:
			}
			return
		}
		for i := range out {
			out[i][from+k] = p.evaluate(uint8(xs[i]) + 1)
		}
	}
}

func SplitP(''')])
edit("conc-once-table","X02 P03",[(PO,"func init() {\n	polynomialBufferPool = utils.NewBytesBufferPool(0)\n}",'''func init() {
	polynomialBufferPool = newPool()
}

func newPool() *utils.BytesBufferPool { return utils.NewBytesBufferPool(0) }''')])
edit("conc-counter","X02 X05 P07",[(S,"import (",'import (\n	"sync/atomic"'),(S,"func Combine(","// combined counts the calls of Combine\nvar combined uint64\n\nfunc Combine("),(S,'''	// Create a buffer to store the reconstructed secret
''','''	atomic.AddUint64(&combined, 1)
''')])
edit("conc-mutex-stats","X02",[("worker/worker.go",'type Worker struct {\n','type Worker struct {\n	mu sync.Mutex\n	n  int\n'),("worker/worker.go",'import (','import (\n	"sync"'),("worker/worker.go",'''	return Worker{
		csprng.NewCSPRNG(),
	}''','''	return Worker{r: csprng.NewCSPRNG()}'''),("worker/worker.go",'''	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer''','''	w.mu.Lock()
	w.n++
	w.mu.Unlock()
	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer''')])

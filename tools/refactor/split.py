S="shamir/shamir.go"; PO="shamir/polynomial.go"
SANITY='''	// Sanity check the input
	if parts < threshold {
		return nil, fmt.Errorf("parts cannot be less than threshold")
	}
	if parts > 255 {
		return nil, fmt.Errorf("parts cannot exceed 255")
	}
	if threshold < 2 {
		return nil, fmt.Errorf("threshold must be at least 2")
	}
	if threshold > 255 {
		return nil, fmt.Errorf("threshold cannot exceed 255")
	}
	if len(secret) == 0 {
		return nil, fmt.Errorf("cannot split an empty secret")
	}
'''
A="P02 P03 P04 P05 P06"
edit("split-sanity-helper",A,[(S,SANITY,'''	if err := checkSplit(secret, parts, threshold); err != nil {
		return nil, err
	}
'''),(S,"",'''
func checkSplit(secret []byte, parts, threshold int) error {
	switch {
	case len(secret) == 0:
		return fmt.Errorf("cannot split an empty secret")
	case threshold < 2:
		return fmt.Errorf("threshold must be at least 2")
	case parts > 255:
		return fmt.Errorf("parts cannot exceed 255")
	case parts < threshold:
		return fmt.Errorf("parts cannot be less than threshold")
	}
	return nil
}
''')])
edit("split-sanity-order",A,[(S,SANITY,'''	if len(secret) == 0 {
		return nil, fmt.Errorf("cannot split an empty secret")
	}
	if threshold < 2 || threshold > 255 || parts > 255 || parts < threshold {
		return nil, fmt.Errorf("invalid parameters")
	}
''')])
OUTB='''	out := make([][]byte, parts)
	buff := make([]byte, (len(secret)+1)*parts)
	for idx := range out {
		s := (len(secret)+1)*idx
		e := s + len(secret)+1
		out[idx] = buff[s:e:e]
		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
	}
'''
OUTM='''	out := make([][]byte, parts)
	for idx := range out {
		out[idx] = make([]byte, len(secret)+1)
		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
	}
'''
edit("split-out-own",A,[(S,OUTB,OUTM)])
edit("split-out-append",A,[(S,OUTB,'''	out := make([][]byte, 0, parts)
	for idx := 0; idx < parts; idx++ {
		share := make([]byte, len(secret)+1)
		share[len(share)-1] = uint8(xCoordinates[idx]) + 1
		out = append(out, share)
	}
''')])
edit("split-out-cut",A,[(S,OUTB,'''	out := make([][]byte, parts)
	size := len(secret)+1
	buff := make([]byte, size*parts)
	for idx := range out {
		out[idx], buff = buff[:size:size], buff[size:]
		out[idx][size-1] = uint8(xCoordinates[idx]) + 1
	}
''')])
edit("split-tag-later",A,[(S,'''		out[idx] = buff[s:e:e]
		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
	}
''','''		out[idx] = buff[s:e:e]
	}
'''),(S,'''	for i := 0; i < parts; i++ {
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, uint8(xCoordinates[i])+1, out[i][0:N])
	}
''','''	for i, share := range out {
		x := uint8(xCoordinates[i])+1
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, x, share[:N])
		share[N] = x
	}
''')])
MPB='''	for p := 0; p < N; p++ {
		s := (degree+1)*p
		e := s + degree+1

		// polynomials[p][0] is the intercept
		// polynomials[p][1:] is the other coefficients that we fill with random
		polynomialP := buffer[s:e]
		polynomialP[0] = intercepts[p]
	}
'''
edit("poly-stride",A,[(PO,MPB,'''	for p := range intercepts {
		buffer[p*(degree+1)] = intercepts[p]
	}
'''),(PO,"	N := len(intercepts)\n\n	// assign random","	// assign random")])
edit("poly-stride2",A,[(PO,MPB,'''	pos := 0
	for _, v := range intercepts[:N] {
		buffer[pos] = v
		pos += degree + 1
	}
''')])
TR='''	colLen := len(source)/rowLen
	curSourceCol := 0
	curSourceRow := 0
	for i := 0; i < len(source); i++ {
		dest[i] = source[rowLen*curSourceRow + curSourceCol]
		curSourceRow++
		if curSourceRow == colLen {
			curSourceRow = 0
			curSourceCol++
		}
	}
'''
edit("transpose-nested",A,[(PO,TR,'''	colLen := len(source)/rowLen
	for col := 0; col < rowLen; col++ {
		for row := 0; row < colLen; row++ {
			dest[col*colLen+row] = source[row*rowLen+col]
		}
	}
''')])
edit("transpose-nested2",A,[(PO,TR,'''	colLen := len(source)/rowLen
	for row := 0; row < colLen; row++ {
		for col := 0; col < rowLen; col++ {
			dest[col*colLen+row] = source[row*rowLen+col]
		}
	}
''')])
edit("transpose-divmod",A,[(PO,TR,'''	colLen := len(source)/rowLen
	for i := range source {
		dest[i] = source[rowLen*(i%colLen) + i/colLen]
	}
''')])
edit("transpose-pos",A,[(PO,TR,'''	colLen := len(source)/rowLen
	pos := 0
	for col := 0; col < rowLen; col++ {
		at := col
		for row := 0; row < colLen; row++ {
			dest[pos] = source[at]
			at += rowLen
			pos++
		}
	}
''')])
EV='''	s := degree*rowLen
	e := s+rowLen
	copy(result, coefficientsBuff[s:e])
	for i := degree - 1; i >= 0; i-- {
		s = i*rowLen
		e = s+rowLen
		result = gf.AddVector(coefficientsBuff[s:e], gf.MulConstVector(x, result))
	}
'''
edit("eval-row-helper",A,[(PO,EV,'''	row := func(i int) []uint8 { return coefficientsBuff[i*rowLen:(i+1)*rowLen] }
	copy(result, row(degree))
	for i := degree - 1; i >= 0; i-- {
		result = gf.AddVector(row(i), gf.MulConstVector(x, result))
	}
''')])
edit("eval-scalar",A,[(PO,EV,'''	for k := 0; k < rowLen; k++ {
		y := coefficientsBuff[degree*rowLen+k]
		for i := degree - 1; i >= 0; i-- {
			y = add(mult(y, x), coefficientsBuff[i*rowLen+k])
		}
		result[k] = y
	}
''')])
edit("eval-zero-start",A,[(PO,EV,'''	for k := range result {
		result[k] = 0
	}
	for i := degree; i >= 0; i-- {
		s := i*rowLen
		e := s+rowLen
		result = gf.AddVector(coefficientsBuff[s:e], gf.MulConstVector(x, result))
	}
''')])
edit("eval-shift-loop",A,[(PO,EV,'''	copy(result, coefficientsBuff[degree*rowLen:])
	for i := degree; i > 0; i-- {
		s := (i-1)*rowLen
		result = gf.AddVector(coefficientsBuff[s:s+rowLen], gf.MulConstVector(x, result))
	}
''')])
edit("eval-make",A,[(PO,'''	resultBuff := polynomialBufferPool.Get()
	defer polynomialBufferPool.Put(resultBuff)
	resultBuff.Reset()
	resultBuff.Grow(rowLen)
	result := resultBuff.Bytes()[0:rowLen]
''','''	result := make([]uint8, rowLen)
''')])
edit("eval-noret",A,[(PO,'''	for i := degree - 1; i >= 0; i-- {
		result = gf.AddVector(coefficients[i], gf.MulConstVector(x, result))
	}
''','''	for i := degree - 1; i >= 0; i-- {
		product := gf.MulConstVector(x, result)
		result = gf.AddVector(product, coefficients[i])
	}
''')]) if False else None
MP='''	startIdx := 0
	for p := 0; p < N; p++ {
		polynomials[p][0] = intercepts[p]                                // polynomials[p][0] is the intercept
		copy(polynomials[p][1:], coefficients[startIdx:startIdx+degree]) // polynomials[p][1:] is the other coefficients
		startIdx += degree
	}
'''
edit("poly-mul-index",A,[(PO,MP,'''	for p, intercept := range intercepts {
		row := polynomials[p]
		row[0] = intercept
		copy(row[1:], coefficients[p*degree:(p+1)*degree])
	}
''')])
edit("poly-loop-copy",A,[(PO,MP,'''	for p := 0; p < N; p++ {
		polynomials[p][0] = intercepts[p]
		for k := 1; k <= degree; k++ {
			polynomials[p][k] = coefficients[p*degree+k-1]
		}
	}
''')])
edit("poly-cut",A,[(PO,MP,'''	for p := 0; p < N; p++ {
		polynomials[p][0] = intercepts[p]
		copy(polynomials[p][1:], coefficients[:degree])
		coefficients = coefficients[degree:]
	}
''')])
edit("poly-read-rows",A,[(PO,'''	coefficients := make([]byte, degree*N)

	// Assign random co-efficients to all the N polynomials
	if _, err := rand.Read(coefficients); err != nil {
		return nil, err
	}

'''+MP,'''	for p := 0; p < N; p++ {
		if _, err := rand.Read(polynomials[p][1:]); err != nil {
			return nil, err
		}
		polynomials[p][0] = intercepts[p]
	}
''')])
edit("matrix-rows",A,[(PO,'''	a := make([]uint8, r*c)
	m := make([][]uint8, r)
	lo, hi := 0, c
	for i := range m {
		m[i] = a[lo:hi:hi]
		lo, hi = hi, hi+c
	}
	return m
''','''	m := make([][]uint8, r)
	for i := range m {
		m[i] = make([]uint8, c)
	}
	return m
''')])
edit("matrix-mul",A,[(PO,'''	lo, hi := 0, c
	for i := range m {
		m[i] = a[lo:hi:hi]
		lo, hi = hi, hi+c
	}
''','''	for i := 0; i < r; i++ {
		m[i] = a[i*c : (i+1)*c : (i+1)*c]
	}
''')])
edit("trans-swap",A,[(PO,'''	for i := 0; i < xl; i++ {
		for j := 0; j < yl; j++ {
			result[i][j] = slice[j][i]
		}
	}
''','''	for j, row := range slice {
		for i, v := range row {
			result[i][j] = v
		}
	}
''')])
edit("splitp-worker-func",A,[(S,'''			crtIdx := startIdx
			for _, val := range values {
''','''			for k, val := range values {
				crtIdx := startIdx + k
'''),(S,"				crtIdx += 1\n","")])
edit("splitp-chunk",A,[(S,"endIdx := idx + 1024","endIdx := idx + 4096")])
edit("splitp-forloop",A,[(S,'''	idx := 0
	secretLen := len(secret)
	var wg sync.WaitGroup
	polyErr := make(chan error, 1)
	for idx < secretLen {

		endIdx := idx + 1024
''','''	secretLen := len(secret)
	var wg sync.WaitGroup
	polyErr := make(chan error, 1)
	for idx := 0; idx < secretLen; idx += 1024 {

		endIdx := idx + 1024
'''),(S,"		idx = endIdx\n	}\n","	}\n")])
edit("splitp-xs",A,[(S,'''				for i := 0; i < parts; i++ {
					x := uint8(xCoordinates[i]) + 1
					y := p.evaluate(x)
					out[i][crtIdx] = y
				}
''','''				for _, share := range out {
					share[crtIdx] = p.evaluate(share[secretLen])
				}
''')])
edit("split-eval-range",A,[(S,'''	for i := 0; i < parts; i++ {
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, uint8(xCoordinates[i])+1, out[i][0:N])
	}
''','''	for i := range out {
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, out[i][N], out[i][:N])
	}
''')])
edit("split-eval-down",A,[(S,'''	for i := 0; i < parts; i++ {
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, uint8(xCoordinates[i])+1, out[i][0:N])
	}
''','''	for i := parts - 1; i >= 0; i-- {
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, uint8(xCoordinates[i])+1, out[i][0:N])
	}
''')])

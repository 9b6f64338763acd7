S="shamir/shamir.go"; PO="shamir/polynomial.go"
VALID='''	// Verify enough parts provided
	if len(parts) < 2 {
		return nil, fmt.Errorf("less than two parts cannot be used to reconstruct the secret")
	}

	// Verify the parts are all the same length
	firstPartLen := len(parts[0])
	if firstPartLen < 2 {
		return nil, fmt.Errorf("parts must be at least two bytes")
	}
	for i := 1; i < len(parts); i++ {
		if len(parts[i]) != firstPartLen {
			return nil, fmt.Errorf("all parts must be the same length")
		}
	}
'''
edit("comb-helper-valid","P07 P08 P09",[(S,VALID,'''	firstPartLen, err := partLength(parts)
	if err != nil {
		return nil, err
	}
'''),(S,"",'''
func partLength(parts [][]byte) (int, error) {
	if len(parts) < 2 {
		return 0, fmt.Errorf("less than two parts cannot be used to reconstruct the secret")
	}
	n := len(parts[0])
	if n < 2 {
		return 0, fmt.Errorf("parts must be at least two bytes")
	}
	for _, p := range parts[1:] {
		if len(p) != n {
			return 0, fmt.Errorf("all parts must be the same length")
		}
	}
	return n, nil
}
''')])
edit("comb-range-all","P07 P08 P09",[(S,'''	for i := 1; i < len(parts); i++ {
		if len(parts[i]) != firstPartLen {''','''	for _, part := range parts {
		if len(part) != firstPartLen {''')])
edit("comb-array-set","P07 P08 P09",[(S,"checkMap := map[byte]bool{}","var checkMap [256]bool")])
edit("comb-make-map","P07 P08 P09",[(S,"checkMap := map[byte]bool{}","checkMap := make(map[byte]bool, len(parts))")])
edit("comb-struct-map","P07 P08",[(S,'''	checkMap := map[byte]bool{}
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
''','''	checkMap := map[byte]struct{}{}
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if _, exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = struct{}{}
''')])
edit("comb-quadratic","P07 P08",[(S,'''	checkMap := map[byte]bool{}
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
		x_samples[i] = samp
	}
''','''	for i, part := range parts {
		samp := part[firstPartLen-1]
		for j := 0; j < i; j++ {
			if x_samples[j] == samp {
				return nil, fmt.Errorf("duplicate part detected")
			}
		}
		x_samples[i] = samp
	}
''')])
edit("comb-xs-helper","P07 P08",[(S,'''	checkMap := map[byte]bool{}
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
		x_samples[i] = samp
	}
''','''	if !collectTags(parts, x_samples) {
		return nil, fmt.Errorf("duplicate part detected")
	}
'''),(S,"",'''
func collectTags(parts [][]byte, xs []byte) bool {
	seen := map[byte]bool{}
	for i := range parts {
		tag := parts[i][len(parts[i])-1]
		if seen[tag] {
			return false
		}
		seen[tag] = true
		xs[i] = tag
	}
	return true
}
''')])
INTERP='''			if i == j {
				continue
			}
			num := add(x, x_samples[j])
			denom := add(x_samples[i], x_samples[j])
			term := div(num, denom)
			basis = mult(basis, term)
'''
edit("interp-ifne","P07 P08 P09",[(PO,INTERP,'''			if i != j {
				basis = mult(basis, div(add(x, x_samples[j]), add(x_samples[i], x_samples[j])))
			}
''')])
edit("interp-numden","P08 P09",[(PO,'''		basis = 1
''','''		num, den := uint8(1), uint8(1)
'''),(PO,INTERP,'''			if i == j {
				continue
			}
			num = mult(num, add(x, x_samples[j]))
			den = mult(den, add(x_samples[i], x_samples[j]))
'''),(PO,"		group := mult","		basis = div(num, den)\n		group := mult")])
edit("interp-gf","P07 P08 P09",[(PO,INTERP,'''			if i == j {
				continue
			}
			basis = gf.GalMultiply(basis, gf.GalDivide(gf.GalAdd(x, x_samples[j]), gf.GalAdd(x_samples[i], x_samples[j])))
''')])
edit("interp-xor","P07 P08 P09",[(PO,"num := add(x, x_samples[j])","num := x ^ x_samples[j]"),(PO,"result = add(result, group)","result ^= group")])
edit("interp-range","P07 P08 P09",[(PO,'''		for j := 0; j < limit; j++ {
			if i == j {''','''		for j := range x_samples {
			if i == j {''')])
edit("interp-two-loops","P08 P09",[(PO,'''		for j := 0; j < limit; j++ {
'''+INTERP+'''		}
''','''		for j := 0; j < i; j++ {
			basis = mult(basis, div(add(x, x_samples[j]), add(x_samples[i], x_samples[j])))
		}
		for j := i + 1; j < limit; j++ {
			basis = mult(basis, div(add(x, x_samples[j]), add(x_samples[i], x_samples[j])))
		}
''')])
edit("interp-basis-helper","P08 P09",[(PO,'''		basis = 1
		for j := 0; j < limit; j++ {
'''+INTERP+'''		}
''','''		basis = lagrangeBasis(x_samples, i, x)
'''),(PO,"",'''
func lagrangeBasis(xs []uint8, i int, x uint8) uint8 {
	b := uint8(1)
	for j, xj := range xs {
		if j == i {
			continue
		}
		b = mult(b, div(add(x, xj), add(xs[i], xj)))
	}
	return b
}
''')])
edit("comb-append","P07 P08",[(S,"secret := make([]byte, firstPartLen-1)","secret := make([]byte, 0, firstPartLen-1)"),(S,"	for idx := range secret {\n		// Set the y","	for idx := 0; idx < firstPartLen-1; idx++ {\n		// Set the y"),(S,"		secret[idx] = val\n","		secret = append(secret, val)\n")])
edit("comb-idx-loop","P07 P08",[(S,"	for idx := range secret {\n		// Set the y","	for idx := 0; idx < len(secret); idx++ {\n		// Set the y")])
edit("comb-ysloop","P07 P08",[(S,'''		for i, part := range parts {
			y_samples[i] = part[idx]
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)

		// Evaluate the 0th value to get the intercept
		secret[idx] = val
''','''		for i := 0; i < len(parts); i++ {
			y_samples[i] = parts[i][idx]
		}
		secret[idx] = interpolatePolynomial(x_samples, y_samples, 0)
''')])
edit("comb-switch","P07 P08 P09",[(S,'''	// Verify enough parts provided
	if len(parts) < 2 {
		return nil, fmt.Errorf("less than two parts cannot be used to reconstruct the secret")
	}

	// Verify the parts are all the same length
	firstPartLen := len(parts[0])
	if firstPartLen < 2 {
		return nil, fmt.Errorf("parts must be at least two bytes")
	}
''','''	switch {
	case len(parts) < 2:
		return nil, fmt.Errorf("less than two parts cannot be used to reconstruct the secret")
	case len(parts[0]) < 2:
		return nil, fmt.Errorf("parts must be at least two bytes")
	}
	firstPartLen := len(parts[0])
''')])
edit("comb-noop","P07 P08 P09",[(S,"	firstPartLen := len(parts[0])\n","	firstPartLen := len(parts[0])\n	_ = firstPartLen\n"),(S,"","\n// trailing comment\n")])
edit("comb-errvar","P07 P08",[(S,'''			return nil, fmt.Errorf("duplicate part detected")''','''			return nil, errDuplicate'''),(S,"",'''
var errDuplicate = fmt.Errorf("duplicate part detected")
''')])
edit("regen-candidate","P07 P09",[(S,'''	if _, err := rand.Read(newXs); err != nil {
		return nil, fmt.Errorf("failed to generate new random x: %v", err)
	}
''',""),(S,'''		for checkMap[newXs[i]] {
			newXs[i] = byte(rand.Uint32())
		}
		checkMap[newXs[i]] = true
''','''		for {
			x := byte(rand.Intn(256))
			if !checkMap[x] {
				checkMap[x] = true
				newXs[i] = x
				break
			}
		}
''')])
edit("regen-xs-early","P07 P09",[(S,'''	for _, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
''','''	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
		x_samples[i] = samp
'''),(S,'''	for i, share := range parts {
		x_samples[i] = share[firstPartLen-1]
	}
''',"")])
edit("regen-buffer","P07 P09",[(S,'''	for k:=0; k < numNewShares; k++ {
		newShares[k] = make([]byte, firstPartLen) // TODO: make this more efficient by allocating with buffer pool
''','''	buff := make([]byte, numNewShares*firstPartLen)
	for k := range newShares {
		newShares[k] = buff[k*firstPartLen : (k+1)*firstPartLen : (k+1)*firstPartLen]
''')])
edit("regen-helper","P07 P09",[(S,'''		for j := 0; j < firstPartLen-1; j++ {
			for i, share := range parts {
				y_samples[i] = share[j]
			}
			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
		}
''','''		interpolateInto(newShares[k][:firstPartLen-1], parts, x_samples, y_samples, newXs[k])
'''),(S,"",'''
func interpolateInto(dst []byte, parts [][]byte, xs, ys []byte, x byte) {
	for j := range dst {
		for i := range parts {
			ys[i] = parts[i][j]
		}
		dst[j] = interpolatePolynomial(xs, ys, x)
	}
}
''')])
edit("regen-bytes-outer","P09",[(S,'''	for k:=0; k < numNewShares; k++ {
		newShares[k] = make([]byte, firstPartLen) // TODO: make this more efficient by allocating with buffer pool
		newShares[k][firstPartLen-1] = newXs[k]
		for j := 0; j < firstPartLen-1; j++ {
			for i, share := range parts {
				y_samples[i] = share[j]
			}
			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
		}
	}
''','''	for k := 0; k < numNewShares; k++ {
		newShares[k] = make([]byte, firstPartLen)
		newShares[k][firstPartLen-1] = newXs[k]
	}
	for j := 0; j < firstPartLen-1; j++ {
		for i, share := range parts {
			y_samples[i] = share[j]
		}
		for k := 0; k < numNewShares; k++ {
			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
		}
	}
''')])
edit("regen-zero-loop","P07 P09",[(S,'''		for checkMap[newXs[i]] {
			newXs[i]''','''		for newXs[i] == 0 || checkMap[newXs[i]] {
			newXs[i]'''),(S,"	checkMap[0] = true\n","")])
edit("mult-early","P08 P09",[(PO,'''	log_a := logTable[a]
	log_b := logTable[b]
	sum := (int(log_a) + int(log_b)) % 255
''','''	sum := (int(logTable[a]) + int(logTable[b])) % 255
''')])
edit("mult-if","P08 P09",[(PO,'''	// Ensure we return zero if either a or b are zero but aren't subject to
	// timing attacks
	ret = subtle.ConstantTimeSelect(subtle.ConstantTimeByteEq(a, 0), 0, ret)
	ret = subtle.ConstantTimeSelect(subtle.ConstantTimeByteEq(b, 0), 0, ret)
''','''	if a == 0 || b == 0 {
		return 0
	}
''')])

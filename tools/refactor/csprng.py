C="csprng/csprng.go"; RZ="randomizer/randomizer.go"
A="R01 R03"
READ='''	n := uint64(len(buff))
	offset := atomic.AddUint64(&r.offset, n) - n
	for i := range buff {
		buff[i] = 0
	}
	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
	return len(buff), nil
}
'''
edit("gen-read-helpers",A,[(C,READ,'''	offset := r.reserve(len(buff))
	wipe(buff)
	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
	return len(buff), nil
}

func (r *CSPRNG) reserve(n int) uint64 {
	return atomic.AddUint64(&r.offset, uint64(n)) - uint64(n)
}

func wipe(b []byte) {
	for i := 0; i < len(b); i++ {
		b[i] = 0
	}
}
''')])
edit("gen-read-order",A,[(C,READ,'''	for i := len(buff) - 1; i >= 0; i-- {
		buff[i] = 0
	}
	end := atomic.AddUint64(&r.offset, uint64(len(buff)))
	r.c.XORKeyStreamAt(buff, buff, r.iv, end-uint64(len(buff)))
	return len(buff), nil
}
''')])
edit("gen-read-zeros",A,[(C,READ,'''	n := len(buff)
	offset := atomic.AddUint64(&r.offset, uint64(n)) - uint64(n)
	zeros := make([]byte, n)
	r.c.XORKeyStreamAt(buff, zeros, r.iv, offset)
	return n, nil
}
''')])
edit("gen-ctor-shared",A,[(C,'''	ctr := aesctrat.NewAesCtr(keyIv[:16])
	return &CSPRNG{c: ctr, iv: keyIv[16:]}
''','''	return NewCSPRNGWithKeyIV(keyIv)
''')])
edit("gen-ctor-fields",A,[(C,'''	ctr := aesctrat.NewAesCtr(keyIv[:16])
	iv := append([]byte(nil), keyIv[16:]...)
	return &CSPRNG{c: ctr, iv: iv}
''','''	r := new(CSPRNG)
	r.c = aesctrat.NewAesCtr(keyIv[:16])
	r.iv = make([]byte, len(keyIv)-16)
	copy(r.iv, keyIv[16:])
	return r
''')])
edit("gen-ctor-crand",A,[(C,'''	keyIv := make([]byte, 32)
	if _, err := crand.Read(keyIv); err != nil {
		panic(err)
	}
''','''	const size = 16 + 16
	keyIv := make([]byte, size)
	_, err := crand.Read(keyIv)
	if err != nil {
		panic(err)
	}
''')])
SH='''		temp := buff[i]
		buff[i] = buff[j]
		buff[j] = temp
'''
edit("gen-perm-tuple",A,[(C,SH,'''		buff[i], buff[j] = buff[j], buff[i]
''')])
edit("gen-perm-int",A,[(C,'''	for i := byte(0); int(i) < int(n)-1; i++ {
		j := i + shuffler[i] % (n-i)
''','''	for i := 0; i+1 < int(n); i++ {
		j := i + int(shuffler[i])%(int(n)-i)
''')])
edit("gen-perm-all",A,[(C,'''	for i := byte(0); int(i) < int(n)-1; i++ {
''','''	for i := byte(0); i < n; i++ {
''')])
edit("gen-perm-small",A,[(C,'''	for i := byte(0); int(i) < int(n)-1; i++ {
''','''	if n < 2 {
		return buff
	}
	for i := byte(0); i < n-1; i++ {
''')])
edit("gen-perm-range",A,[(C,'''	for i := byte(0); i < n; i++ {
		buff[i] = i
	}
''','''	for i := range buff {
		buff[i] = byte(i)
	}
''')])
edit("gen-perm-swap-helper",A,[(C,SH,'''		swap(buff, int(i), int(j))
'''),(C,"",'''

func swap(b []byte, i, j int) {
	b[i], b[j] = b[j], b[i]
}
''')])
edit("gen-perm-inplace",A,[(C,'''		j := i + shuffler[i] % (n-i)
''','''		rest := n - i
		j := i + shuffler[i]%rest
''')])
UB='''	buff := make([]byte, n)
	isExist := map[byte]bool{}
	_, _ = r.Read(buff)
	for i := byte(0); i < n; i++ {
		isDuplicate := true
		for isDuplicate {
			if _, exist := isExist[buff[i]]; !exist && buff[i] != 255 {
				isDuplicate = false
				break
			}
			_, _ = r.Read(buff[i:i+1])
		}
		isExist[buff[i]] = true
	}
	return buff
'''
edit("uniq-for",A,[(C,UB,'''	buff := make([]byte, n)
	isExist := map[byte]bool{}
	_, _ = r.Read(buff)
	for i := range buff {
		for buff[i] == 255 || isExist[buff[i]] {
			_, _ = r.Read(buff[i : i+1])
		}
		isExist[buff[i]] = true
	}
	return buff
''')])
edit("uniq-array",A,[(C,UB,'''	buff := make([]byte, n)
	var used [256]bool
	used[255] = true
	_, _ = r.Read(buff)
	for i := range buff {
		for used[buff[i]] {
			_, _ = r.Read(buff[i : i+1])
		}
		used[buff[i]] = true
	}
	return buff
''')])
edit("uniq-prefill",A,[(C,"	isExist := map[byte]bool{}\n","	isExist := map[byte]bool{255: true}\n"),(C,"!exist && buff[i] != 255","!exist")])
edit("uniq-helper",A,[(C,UB,'''	buff := make([]byte, n)
	_, _ = r.Read(buff)
	for i := 1; i <= int(n); i++ {
		r.fix(buff[:i])
	}
	return buff
'''),(C,"",'''

// fix redraws the last byte until it is new.
func (r *CSPRNG) fix(b []byte) {
	last := len(b) - 1
	for {
		ok := b[last] != 255
		for _, c := range b[:last] {
			if c == b[last] {
				ok = false
			}
		}
		if ok {
			return
		}
		_, _ = r.Read(b[last:])
	}
}
''')])
edit("uniq-continue",A,[(C,UB,'''	buff := make([]byte, n)
	isExist := make(map[byte]bool, n)
	_, _ = r.Read(buff)
	i := 0
	for i < len(buff) {
		if isExist[buff[i]] || buff[i] == 255 {
			_, _ = r.Read(buff[i : i+1])
			continue
		}
		isExist[buff[i]] = true
		i++
	}
	return buff
''')])
edit("uniq-struct",A,[(C,"map[byte]bool{}","map[byte]struct{}{}"),(C,"isExist[buff[i]] = true","isExist[buff[i]] = struct{}{}")])
edit("uniq-perm-cut",A,[(C,"		return r.Perm(255)[:n]\n",'''		perm := r.Perm(255)
		out := make([]byte, n)
		copy(out, perm)
		return out
''')])
B="R04"
edit("rnd-ctor",B,[(RZ,'''	c, err := aes.NewCipher(keyAndIV[:16])
	if err != nil {
		panic(err)
	}
	s := cipher.NewCTR(c, keyAndIV[16:])
	return &Randomizer{c: s}
''','''	key, iv := keyAndIV[:16], keyAndIV[16:]
	block, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	return &Randomizer{cipher.NewCTR(block, iv)}
''')])
edit("rnd-read",B,[(RZ,'''	for i := range buff {
		buff[i] = 0
	}
	r.c.XORKeyStream(buff, buff)
''','''	zero := make([]byte, len(buff))
	r.c.XORKeyStream(buff, zero)
''')])
edit("rnd-perm-swap",B,[(RZ,'''		temp := buff[rx]
		buff[rx] = buff[max]
		buff[max] = temp
''','''		buff[rx], buff[max] = buff[max], buff[rx]
''')])
edit("rnd-perm-up",B,[(RZ,'''	for max := int(n) - 1; max > 0; max-- {
		rx := int(shuffler[max]) % (max + 1)
''','''	for max := 1; max < int(n); max++ {
		rx := int(shuffler[max]) % (max + 1)
''')])
edit("rnd-perm-while",B,[(RZ,'''	for max := int(n) - 1; max > 0; max-- {
''','''	max := int(n)
	for max > 1 {
		max--
''')])

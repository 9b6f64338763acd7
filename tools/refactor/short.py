K="krawczyk/krawczyk.go"; AE="krawczyk/aes.go"
A="K02 K04"
edit("short-sanity-helper",A,[(K,'''	if threshold == 0 || parts == 0 {
		return nil, errors.New("#parts and #threshold can not be zero")
	}
	if threshold > parts {
		return nil, fmt.Errorf(
			"threshold should be less to the number of parts, #parts=%d $threshold=%d", parts, threshold)
	}
	if threshold > 255 || parts > 255 {
		return nil, fmt.Errorf(
			"#parts and #threshold should be less than 256, #parts=%d $threshold=%d", parts, threshold)
	}

	// generate random key
''','''	if err := checkParams(parts, threshold); err != nil {
		return nil, err
	}

	// generate random key
'''),(K,"",'''
func checkParams(parts, threshold int) error {
	if threshold < 1 || parts < threshold || parts > 255 {
		return fmt.Errorf("invalid #parts=%d or #threshold=%d", parts, threshold)
	}
	return nil
}
''')])
edit("short-key-array",A,[(K,'''	key := make([]byte, LenKey)
	_, err := rand.Read(key)
''','''	var keyArray [LenKey]byte
	key := keyArray[:]
	_, err := rand.Read(key)
''')])
edit("short-pair-make",A,[(K,'''	lenSecret := uint32(len(encryptedSecret))
	lenSecretBytes := make([]byte, LenLen)
	binary.LittleEndian.PutUint32(lenSecretBytes, lenSecret)
	keyLenPair := append(key, lenSecretBytes...)
''','''	keyLenPair := make([]byte, LenKey+LenLen)
	copy(keyLenPair, key)
	binary.LittleEndian.PutUint32(keyLenPair[LenKey:], uint32(len(encryptedSecret)))
''')])
edit("short-rows-append",A,[(K,'''	for i := 0; i < parts; i++ {
		copy(results[i][0:lenEncodedMetadata], ssKeyLenPair[i])
		copy(results[i][lenEncodedMetadata:], encodedSecret[i])
	}
''','''	for i, row := range results {
		n := copy(row, ssKeyLenPair[i])
		copy(row[n:], encodedSecret[i])
	}
''')])
edit("short-rows-own",A,[(K,'''	results := newByteMatrix(parts, lenEncodedSecret+lenEncodedMetadata)
	for i := 0; i < parts; i++ {
		copy(results[i][0:lenEncodedMetadata], ssKeyLenPair[i])
''','''	results := make([][]byte, parts)
	for i := 0; i < parts; i++ {
		results[i] = make([]byte, lenEncodedSecret+lenEncodedMetadata)
		copy(results[i][0:lenEncodedMetadata], ssKeyLenPair[i])
''')])
edit("short-id-late",A,[(K,'''	for i := 0; i < len(encodedSecret); i++ {
		encodedSecret[i] = append(encodedSecret[i], byte(i))
	}
''',''),(K,'''	results := newByteMatrix(parts, lenEncodedSecret+lenEncodedMetadata)
''','''	results := newByteMatrix(parts, lenEncodedSecret+lenEncodedMetadata+1)
'''),(K,'''		copy(results[i][lenEncodedMetadata:], encodedSecret[i])
''','''		copy(results[i][lenEncodedMetadata:], encodedSecret[i])
		results[i][lenEncodedMetadata+lenEncodedSecret] = byte(i)
''')])
edit("short-rows-grow",A,[(K,'''	results := newByteMatrix(parts, lenEncodedSecret+lenEncodedMetadata)
	for i := 0; i < parts; i++ {
		copy(results[i][0:lenEncodedMetadata], ssKeyLenPair[i])
		copy(results[i][lenEncodedMetadata:], encodedSecret[i])
	}
''','''	results := make([][]byte, parts)
	for i := range results {
		share := make([]byte, 0, lenEncodedSecret+lenEncodedMetadata)
		share = append(share, ssKeyLenPair[i]...)
		share = append(share, encodedSecret[i]...)
		results[i] = share
	}
''')])
edit("short-meta-helper",A,[(K,'''	lenSecret := uint32(len(encryptedSecret))
	lenSecretBytes := make([]byte, LenLen)
	binary.LittleEndian.PutUint32(lenSecretBytes, lenSecret)
	keyLenPair := append(key, lenSecretBytes...)
''','''	keyLenPair := packMetadata(key, len(encryptedSecret))
'''),(K,"",'''
func packMetadata(key []byte, n int) []byte {
	out := make([]byte, LenKey+LenLen)
	copy(out, key)
	for i := 0; i < LenLen; i++ {
		out[LenKey+i] = byte(n >> (8 * uint(i)))
	}
	return out
}
''')])
edit("short-crypt-xor",A+" K01 K03",[(AE,'''	var out bytes.Buffer
	writer := &cipher.StreamWriter{S: stream, W: &out}
	if _, err := io.Copy(writer, bytes.NewReader(plaintext)); err != nil {
		return nil, err
	}

	return out.Bytes(), nil
''','''	out := make([]byte, len(plaintext))
	stream.XORKeyStream(out, plaintext)
	return out, nil
''')])
edit("short-crypt-iv",A+" K01 K03",[(AE,'''	var iv [aes.BlockSize]byte
	stream := cipher.NewOFB(block, iv[:])
''','''	iv := make([]byte, aes.BlockSize)
	stream := cipher.NewOFB(block, iv)
''')])
edit("short-crypt-shared",A+" K01 K03",[(AE,'''	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}

	var iv [aes.BlockSize]byte
	stream := cipher.NewOFB(block, iv[:])
''','''	stream, err := newStream(key)
	if err != nil {
		return nil, err
	}
'''),(AE,"",'''
func newStream(key []byte) (cipher.Stream, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	var iv [aes.BlockSize]byte
	return cipher.NewOFB(block, iv[:]), nil
}
''')])
edit("short-pad-append",A,[(K,'''	paddedSecret := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
	copy(paddedSecret, encryptedSecret)
''','''	paddedSecret := append(make([]byte, 0, len(encryptedSecret)+threshold), encryptedSecret...)
''')])

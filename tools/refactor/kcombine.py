K="krawczyk/krawczyk.go"
A="X01 X04 R05"
edit("kc-append-filter",A,[(K,'''	numCleanParts := 0
	for i := 0; i < len(ssData); i++ {
		if ssData[i] != nil {
			numCleanParts++
		}
	}
	if numCleanParts != len(ssData) {
		cleanSSData := make([][]byte, numCleanParts)
		j := 0
		for i := 0; i < len(ssData); i++ {
			if ssData[i] == nil {
				continue
			}
			cleanSSData[j] = ssData[i]
			j++
		}
		ssData = cleanSSData
	}
''','''	cleanSSData := make([][]byte, 0, len(ssData))
	for _, share := range ssData {
		if share != nil {
			cleanSSData = append(cleanSSData, share)
		}
	}
	ssData = cleanSSData
''')])
edit("kc-present-helper",A,[(K,'''	numCleanParts := 0
	for i := 0; i < len(ssData); i++ {
		if ssData[i] != nil {
			numCleanParts++
		}
	}
	if numCleanParts != len(ssData) {
		cleanSSData := make([][]byte, numCleanParts)
		j := 0
		for i := 0; i < len(ssData); i++ {
			if ssData[i] == nil {
				continue
			}
			cleanSSData[j] = ssData[i]
			j++
		}
		ssData = cleanSSData
	}
''','''	ssData = present(ssData)
'''),(K,"",'''

func present(shares [][]byte) [][]byte {
	var out [][]byte
	for _, s := range shares {
		if s != nil {
			out = append(out, s)
		}
	}
	return out
}
''')])
edit("kc-share-var",A,[(K,'''	for i := 0; i < len(ssData); i++ {
		// metadata, at least''','''	for i, share := range ssData {
		// metadata, at least'''),(K,'''		if len(ssData[i]) < secretStartIdx+2 {''','''		if len(share) < secretStartIdx+2 {'''),(K,'''		ssMetadata[i] = ssData[i][:secretStartIdx]

		// check the part-id of the reed-solomon encoded data
		partID := ssData[i][len(ssData[i])-1]
''','''		last := len(share) - 1
		ssMetadata[i] = share[:secretStartIdx]

		// check the part-id of the reed-solomon encoded data
		partID := share[last]
'''),(K,'''		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
''','''		encodedData[partID] = share[secretStartIdx:last]
''')])
edit("kc-parse-helper",A,[(K,"	secretStartIdx := LenKey + LenLen + 1\n	encodedData","	encodedData"),(K,'''		if len(ssData[i]) < secretStartIdx+2 {
			return nil, errors.New("the given secret-shared data is too short")
		}
		ssMetadata[i] = ssData[i][:secretStartIdx]

		// check the part-id of the reed-solomon encoded data
		partID := ssData[i][len(ssData[i])-1]
		if partID >= byte(parts) {
			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
		}
		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
''','''		meta, data, id, err := parse(ssData[i], parts)
		if err != nil {
			return nil, err
		}
		ssMetadata[i], encodedData[id] = meta, data
'''),(K,"",'''

func parse(share []byte, parts int) (meta, data []byte, id byte, err error) {
	const start = LenKey + LenLen + 1
	if len(share) < start+2 {
		return nil, nil, 0, errors.New("the given secret-shared data is too short")
	}
	id = share[len(share)-1]
	if id >= byte(parts) {
		return nil, nil, 0, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
	}
	return share[:start], share[start : len(share)-1], id, nil
}
''')])
edit("kc-validate",A,[(K,'''	if threshold <= 0 || parts <= 0 {
		return nil, errors.New("#parts and #threshold should be positive")
	}
	if threshold > parts {
		return nil, fmt.Errorf(
			"threshold should be less to the number of parts, #parts=%d $threshold=%d", parts, threshold)
	}
	if threshold > 255 || parts > 255 {
		return nil, fmt.Errorf(
			"#parts and #threshold should be less than 256, #parts=%d $threshold=%d", parts, threshold)
	}

	// remove''','''	if err := validate(parts, threshold); err != nil {
		return nil, err
	}

	// remove'''),(K,"",'''

func validate(parts, threshold int) error {
	switch {
	case threshold <= 0 || parts <= 0:
		return errors.New("#parts and #threshold should be positive")
	case threshold > parts:
		return fmt.Errorf(
			"threshold should be less to the number of parts, #parts=%d $threshold=%d", parts, threshold)
	case parts > 255:
		return fmt.Errorf(
			"#parts and #threshold should be less than 256, #parts=%d $threshold=%d", parts, threshold)
	}
	return nil
}
''')])
edit("kc-copy-key",A,[(K,'''	key := metadata[:LenKey]
''','''	key := append([]byte(nil), metadata[:LenKey]...)
''')])

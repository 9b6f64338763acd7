S="shamir/shamir.go"; P="shamir/polynomial.go"; K="krawczyk/krawczyk.go"; Z="krawczyk/aes.go"; C="csprng/csprng.go"
A="R05 X04"
edit("err-wrap-helper",A,[(S,'''		return nil, fmt.Errorf("failed to generate polynomial: %v", err)
''','''		return nil, polynomialError(err)
'''),(S,"",'''

func polynomialError(cause error) error {
	return fmt.Errorf("failed to generate polynomial: %w", cause)
}
''')])
edit("err-named-results",A,[(P,'''func makePolynomialsWithRandomizer(intercepts []uint8, degree int, randomizer *csprng.CSPRNG) ([][]uint8, error) {''','''func makePolynomialsWithRandomizer(intercepts []uint8, degree int, randomizer *csprng.CSPRNG) (out [][]uint8, err error) {'''),(P,'''	if _, err := randomizer.Read(coefficients); err != nil {
		return nil, err
	}
''','''	if _, err = randomizer.Read(coefficients); err != nil {
		return
	}
''')])
edit("err-fill-helper",A,[(K,'''	_, err := rand.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
''','''	err := fill(key)
	if err != nil {
		return nil, err
	}
'''),(K,"",'''

func fill(key []byte) error {
	_, err := rand.Read(key)
	if err == nil {
		return nil
	}
	return fmt.Errorf("failed to generate secret key: %v", err)
}
''')])
edit("err-happy-path",A,[(Z,'''	if _, err := io.Copy(writer, bytes.NewReader(plaintext)); err != nil {
		return nil, err
	}
''','''	_, err = io.Copy(writer, bytes.NewReader(plaintext))
	failed := err != nil
	if failed {
		return nil, err
	}
''')])
edit("err-decode-helper",A,[(K,'''	var ciphertextBuffer bytes.Buffer
	if err = decoder.ReconstructData(encodedData); err != nil {
		return nil, fmt.Errorf("failed to reconstruct data: %v", err)
	}
	err = decoder.Join(&ciphertextBuffer, encodedData, int(length))
	if err != nil {
		return nil, fmt.Errorf("failed to decode the data: %v", err)
	}
''','''	var ciphertextBuffer bytes.Buffer
	if err = decode(&ciphertextBuffer, decoder, encodedData, int(length)); err != nil {
		return nil, err
	}
'''),(K,"",'''

func decode(out *bytes.Buffer, decoder reedsolomon.Encoder, data [][]byte, length int) error {
	if err := decoder.ReconstructData(data); err != nil {
		return fmt.Errorf("failed to reconstruct data: %v", err)
	}
	if err := decoder.Join(out, data, length); err != nil {
		return fmt.Errorf("failed to decode the data: %v", err)
	}
	return nil
}
''')])
edit("err-tail-call",A,[(K,'''	secret, err := decrypt(ciphertextBuffer.Bytes(), key)
	if err != nil {
		return nil, fmt.Errorf("failed to decrypt the decoded ciphertext: %v", err)
	}

	return secret, nil
''','''	return decrypt(ciphertextBuffer.Bytes(), key)
''')])
edit("err-else",A,[(P,'''	if _, err := rand.Read(p.coefficients[1:]); err != nil {
		return p, err
	}

	return p, nil
''','''	if _, err := rand.Read(p.coefficients[1:]); err == nil {
		return p, nil
	} else {
		return polynomial{}, err
	}
''')])
edit("err-splitp-len",A,[(S,'''	select {
	case err := <-polyErr:
		return nil, fmt.Errorf("failed to generate polynomial: %v", err)
	default:
	}
''','''	close(polyErr)
	if err := <-polyErr; err != nil {
		return nil, fmt.Errorf("failed to generate polynomial: %v", err)
	}
''')])
edit("err-splitp-mutex",A,[(S,'''	polyErr := make(chan error, 1)
''','''	var polyErr error
	var errMu sync.Mutex
'''),(S,'''					select {
					case polyErr <- err:
					default:
					}
					return
''','''					errMu.Lock()
					if polyErr == nil {
						polyErr = err
					}
					errMu.Unlock()
					return
'''),(S,'''	select {
	case err := <-polyErr:
		return nil, fmt.Errorf("failed to generate polynomial: %v", err)
	default:
	}
''','''	if polyErr != nil {
		return nil, fmt.Errorf("failed to generate polynomial: %v", polyErr)
	}
''')])
edit("err-must",A,[(C,'''	if _, err := crand.Read(keyIv); err != nil {
		panic(err)
	}
''','''	mustFill(keyIv)
'''),(C,"",'''

func mustFill(b []byte) {
	if _, err := crand.Read(b); err != nil {
		panic("csprng: " + err.Error())
	}
}
''')])

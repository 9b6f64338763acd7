W="worker/worker.go"
A="X06"
edit("worker-switch",A,[(W,'''	if algorithm != AlgShamir && algorithm != AlgSSMS {
		return nil, errors.New("invalid secret-sharing algorithm")
	}
	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	return krawczyk.SplitWithRandomizer(input, n, k, w.r)
''','''	switch algorithm {
	case AlgShamir:
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	case AlgSSMS:
		return krawczyk.SplitWithRandomizer(input, n, k, w.r)
	}
	return nil, errors.New("invalid secret-sharing algorithm")
''')])
edit("worker-known",A,[(W,'''	if algorithm != AlgShamir && algorithm != AlgSSMS {
		return nil, errors.New("invalid secret-sharing algorithm")
	}
	if algorithm == AlgShamir {
		return shamir.Combine(secretSharedData)
	}
''','''	if err := known(algorithm); err != nil {
		return nil, err
	}
	if algorithm == AlgShamir {
		return shamir.Combine(secretSharedData)
	}
'''),(W,"",'''

var errAlgorithm = errors.New("invalid secret-sharing algorithm")

func known(algorithm string) error {
	if algorithm == AlgShamir || algorithm == AlgSSMS {
		return nil
	}
	return errAlgorithm
}
''')])
edit("worker-err-check",A,[(W,'''		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
''','''		shares, err := shamir.SplitWithRandomizer(input, n, k, w.r)
		if err != nil {
			return nil, err
		}
		return shares, nil
	}
''')])
edit("worker-ctor",A,[(W,'''	return Worker{
		csprng.NewCSPRNG(),
	}
''','''	var w Worker
	w.r = csprng.NewCSPRNG()
	return w
''')])
edit("worker-wrap",A,[(W,'''		return shamir.Combine(secretSharedData)
	}
	return krawczyk.Combine(secretSharedData, n, k)
''','''		return shamir.Combine(secretSharedData)
	}
	out, err := krawczyk.Combine(secretSharedData, n, k)
	if err != nil {
		return nil, fmt.Errorf("worker: %w", err)
	}
	return out, err
'''),(W,'''	"errors"
''','''	"errors"
	"fmt"
''')])
edit("worker-table",A,[(W,'''	if algorithm != AlgShamir && algorithm != AlgSSMS {
		return nil, errors.New("invalid secret-sharing algorithm")
	}
	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	return krawczyk.SplitWithRandomizer(input, n, k, w.r)
''','''	split := shamir.SplitWithRandomizer
	switch algorithm {
	case AlgShamir:
	case AlgSSMS:
		split = krawczyk.SplitWithRandomizer
	default:
		return nil, errors.New("invalid secret-sharing algorithm")
	}
	return split(input, n, k, w.r)
''')])

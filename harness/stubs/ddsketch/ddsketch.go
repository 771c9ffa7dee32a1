// Package ddsketch stands in for the quantile sketches in the symbolic engine:
// it keeps the values instead of approximating their distribution.
package ddsketch

type DDSketch struct{ vals []float64 }

type DDSketchWithExactSummaryStatistics struct{ DDSketch }

func NewDefaultDDSketch(float64) (*DDSketch, error) { return &DDSketch{}, nil }

func NewDefaultDDSketchWithExactSummaryStatistics(float64) (*DDSketchWithExactSummaryStatistics, error) {
	return &DDSketchWithExactSummaryStatistics{}, nil
}

func (s *DDSketch) Add(v float64) error { s.vals = append(s.vals, v); return nil }
func (s *DDSketch) GetCount() float64   { return float64(len(s.vals)) }
func (s *DDSketch) IsEmpty() bool       { return len(s.vals) == 0 }
func (s *DDSketch) Clear()              { s.vals = nil }

func (s *DDSketch) GetSum() float64 {
	r := 0.0
	for _, v := range s.vals {
		r += v
	}
	return r
}

type emptyError struct{}

func (emptyError) Error() string { return "no such element exists" }

func (s *DDSketch) GetMaxValue() (float64, error) {
	if len(s.vals) == 0 {
		return 0, emptyError{}
	}
	r := s.vals[0]
	for _, v := range s.vals {
		if v > r {
			r = v
		}
	}
	return r, nil
}

func (s *DDSketch) GetMinValue() (float64, error) {
	if len(s.vals) == 0 {
		return 0, emptyError{}
	}
	r := s.vals[0]
	for _, v := range s.vals {
		if v < r {
			r = v
		}
	}
	return r, nil
}

func (s *DDSketch) GetValueAtQuantile(q float64) (float64, error) {
	if q < 0.5 {
		return s.GetMinValue()
	}
	return s.GetMaxValue()
}

func (s *DDSketch) GetValuesAtQuantiles(q []float64) ([]float64, error) {
	if len(s.vals) == 0 {
		return nil, emptyError{}
	}
	var r []float64
	for _, x := range q {
		v, _ := s.GetValueAtQuantile(x)
		r = append(r, v)
	}
	return r, nil
}

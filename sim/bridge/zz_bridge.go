package quamina

// The bridge gives the simulator what the public API does not offer yet: an
// instance with a supplied pattern storage and a smaller rebuild threshold.

const ZZBridge = true

func ZZDeletionInstance(store LivePatternsState, ratio float64, minAction int64, opts ...Option) (*Quamina, error) {
	q, err := New(append(opts, WithPatternDeletion(true))...)
	if err != nil {
		return nil, err
	}
	if store != nil {
		q.matcher = newPrunerMatcher(store)
	}
	if ratio > 0 {
		q.matcher.(*prunerMatcher).rebuildTrigger = &tooMuchFiltering{FilteredToEmitted: ratio, MinAction: minAction}
	}
	return q, nil
}

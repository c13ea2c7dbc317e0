package quamina

// Stand-in for the bridge where the internals it uses have gone: everything
// runs through the public API, with the default policy and storage.

const ZZBridge = false

func ZZDeletionInstance(store LivePatternsState, ratio float64, minAction int64, opts ...Option) (*Quamina, error) {
	return New(append(opts, WithPatternDeletion(true))...)
}

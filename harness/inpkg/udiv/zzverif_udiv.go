package uint256

// Accessors for the internal steps of the long division (overlay only).

func ZZReciprocal(d uint64) uint64 { return reciprocal2by1(d) }
func ZZDiv2by1(uh, ul, d, r uint64) (uint64, uint64) {
	return udivrem2by1(uh, ul, d, r)
}
func ZZBy1(quot, u []uint64, d uint64) uint64 { return udivremBy1(quot, u, d) }
func ZZKnuth(quot, u, d []uint64)             { udivremKnuth(quot, u, d) }

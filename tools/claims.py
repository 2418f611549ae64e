CLAIMED = {"P%02d" % i for i in range(1, 31)}
TECH0 = "TLA+ specification; TLC trace validation of recorded executions, replay of TLC-enumerated transitions"
TECH = {}
NOTE0 = ("Every recorded event of seeded random command histories on the real code must be a step of the TLA+ specification; "
         "sampled, not exhaustive, in the inputs; trusts TLC and the projection of floating-point values to rationals.")
NOTE = {}

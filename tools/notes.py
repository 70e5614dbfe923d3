NOTE['*'] = ('Model level: exhaustive within the stated constants. Code level: every recorded event of the generated '
             'histories is checked against the specification, nothing is sampled within a history; inputs are generated, not exhaustive. '
             'Trusts TLC, gcc with AddressSanitizer, and the event encoding in run/.')

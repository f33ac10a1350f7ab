COMMON = 'Trusted: clang 18 front end, the verifier in /verif/vc, z3/cvc5 unsat answers. Proofs are per listed template instantiation.'
LV = {}
TECHS = {}
MIX = ('Functional contracts and absence of undefined behaviour are discharged deductively where the evidence says proved; entries listed as enumerated were decided by running the real function on every value of the type, '
       'entries listed as bounded only on the stated part of the domain (labelled bounded, never counted as proved).')
for _i in ('C13', 'C15', 'C23'): LV[_i] = ('other', MIX)
BND = 'Bounded stand-in: the real templates are run against an exact big-integer oracle under ASan and UBSan on the inputs the evidence states.'
for _i in ('C20',):
    LV[_i] = ('exploration', BND)
    TECHS[_i] = 'contract oracle (exact big-integer postconditions) executed on the real code; bounded, labelled so'
for _i in ('C17', 'C18'):
    LV[_i] = ('proof', COMMON + ' Texts of every length: inductive loop invariants over ghosts of the written number (defining facts of the ghosts in specs/text.py). '
              + ('Assumed: the std::basic_istream contracts of vc/stream.py. ' if _i == 'C18' else '') + 'A bounded run of the real code against an exact oracle cross-checks the proofs and supplies failing inputs.')
LV['C19'] = ('proof', COMMON + ' Every value and every setting of the stream flags: the characters written are judged one by one by the grammar of numbers and read back as a number (ghosts), with an invariant on the fraction loop. '
             'Assumed: inserting a character into std::ostream appends it, field width zero. A bounded run against an exact oracle cross-checks.')

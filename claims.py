CLAIM = {'C17': '', 'C20': '', 'C18': '', 'C22': '', 'C25': '', 'C24': '', 'C15': '', 'C19': '', 'C23': '', 'C26': '', 'C01': '', 'C02': '', 'C03': '', 'C04': '', 'C05': '', 'C06': '', 'C07': '', 'C08': '', 'C09': '', 'C10': '', 'C11': '', 'C12': '', 'C13': '', 'C14': 'Repair losses are proved for structures of up to three component groups (bounded).'}
NA = {
 'C16': 'the contract (ghost sum of accepted estimates over the interval stack) is not finished; the engine part exists, see DESIGN.md "Integrator"',
 'C21': 'quantifies over thread interleavings of OpenMP lock operations; the deductive executor is sequential and no verifier for shared-memory C++ is available offline (DESIGN.md "Caches")',
 'C27': 'the code is boost::python template glue executed by the CPython runtime; no deductive verifier here reaches it and a hand-written model would not be the code that runs',
 'C28': 'the scripting layer is Python executing parsed programs; no deductive verifier for Python is available here',
 'C29': 'per-thread context text under concurrent threads: quantifies over schedules, which the sequential executor cannot (a start-up race found by reading is repaired, 6a36d13)',
 'C30': 'the recorders are Python; no deductive verifier for Python is available here',
}

#!/usr/bin/env python3
"""Single source of properties.jsonl (edit here, run, commit both)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p('C01', 'A satisfiable answer is a complete model of the given formula',
  "Whenever solving answers satisfiable, the answer lists exactly one literal for every variable of the formula, in variable order, and it satisfies every clause and every assignment that was given. "
  "This holds however the clock advances, stalls or jumps during the run, wherever preprocessing is cut short by the time budget, and whatever limits, tuning options and hash seeds are in force.",
  ['inputs', 'schedules', 'configurations', 'fault_sequences'],
  "every formula; every clock history (stalls, jumps, elimination cut off at any variable); every preprocessing/restart/reduction schedule; every setting of the tuning options",
  "tests solve a handful of fixed files under the real clock and default options; the model passes through vivification, variable elimination, clause reduction and restarts, whose interleaving depends on time and limits that no test varies",
  ['src/solver/search.rs', 'src/assign/stack.rs', 'src/assign/propagate.rs', 'src/processor/eliminate.rs', 'src/processor/simplify.rs', 'src/cdb/db.rs', 'src/cdb/vivify.rs'],
  [('model extension over eliminated variables', 'src/assign/stack.rs extend_model'), ('final validation of the extended model', 'src/solver/search.rs Solver::solve'), ('storage of eliminated clauses', 'src/processor/eliminate.rs make_eliminated_clauses')],
  ['Ok(Certificate::SAT(_)) returned by solve', 'the v-line of an answer file'],
  'splr_sim cfg: forces early stage ends, restarts and inprocessing so that small formulas reach the deep paths')

p('C02', 'Unsatisfiable is never answered for a formula that has a model',
  "Solving answers unsatisfiable, at construction or after search, only when no assignment satisfies all the clauses and assignments that were given. "
  "This holds however the clock behaves, wherever preprocessing is cut short, and whatever limits, tuning options and hash seeds are in force.",
  ['inputs', 'schedules', 'configurations', 'fault_sequences'],
  "every formula that has a model, every clock history, every point at which elimination is cut off by time or by the clause limit, every setting of the tuning options",
  "the UNSAT tests use a few fixed formulas; a wrong learnt clause, a wrong resolvent or an unsound subsumption shows only under particular search schedules",
  ['src/solver/conflict.rs', 'src/solver/search.rs', 'src/solver/build.rs', 'src/assign/propagate.rs', 'src/processor/eliminate.rs', 'src/processor/subsume.rs', 'src/processor/simplify.rs', 'src/cdb/db.rs', 'src/cdb/vivify.rs'],
  [('conflict analysis and minimisation', 'src/solver/conflict.rs handle_conflict'), ('resolvents', 'src/processor/eliminate.rs merge'), ('error mapping to a verdict', 'src/solver/search.rs Solver::solve')],
  ['Ok(Certificate::UNSAT) returned by solve', 'Err(Ok(UNSAT)) at construction'],
  'splr_sim cfg: forces early stage ends, restarts and inprocessing')

p('C03', 'A run that hits no limit ends with a verdict, never with a fault',
  "A solve whose time limit has not passed and whose clause limit is not reached always ends with the verdict satisfiable or unsatisfiable. "
  "It never crashes, never runs forever, and never reports an internal error, a time-out or memory exhaustion.",
  ['inputs', 'schedules', 'configurations', 'fault_sequences'],
  "every formula, every hash seed and every clock history that stays before the deadline (including a frozen clock), every setting of the tuning options",
  "tests see the happy path of a few files; a lost clause makes the final validation fail, and a lost watch or stage boundary makes the search loop, only under rare schedules",
  ['src/solver/search.rs', 'src/solver/stage.rs', 'src/solver/restart.rs', 'src/assign/propagate.rs', 'src/assign/select.rs', 'src/assign/heap.rs', 'src/cdb/db.rs'],
  [('search loop and stage schedule', 'src/solver/search.rs search'), ('variable order heap', 'src/assign/heap.rs'), ('validation before answering', 'src/solver/search.rs Solver::solve')],
  ['result of solve', 'process exit'],
  'splr_sim cfg: forces early stage ends, restarts and inprocessing')

p('C04', 'An unsatisfiable answer with certification leaves a valid refutation',
  "When certification is on, nothing fails on the disk, and solving answers unsatisfiable, the proof that has been saved is a DRAT refutation of exactly the formula that was given: every added clause follows (by unit propagation or as a resolution-asymmetric tautology on its first literal) and the empty clause is derived. "
  "This holds wherever preprocessing was cut short by time and whatever restarts, reductions and tuning options were used.",
  ['inputs', 'schedules', 'configurations', 'fault_sequences'],
  "every unsatisfiable formula, every clock history, every inprocessing schedule, every setting of the tuning options",
  "no test checks a proof: the only certificate test needs external tools and is a no-op without them",
  ['src/cdb/unsat_certificate.rs', 'src/cdb/db.rs', 'src/cdb/vivify.rs', 'src/processor/eliminate.rs', 'src/processor/subsume.rs', 'src/solver/conflict.rs', 'src/solver/search.rs'],
  [('proof recorder', 'src/cdb/unsat_certificate.rs CertificationStore'), ('recording of units', 'src/cdb/db.rs certificate_add_assertion'), ('finishing the proof', 'src/cdb/db.rs certificate_save')],
  ['the proof file after save_certification / after the splr command exits'],
  'splr_sim cfg: forces early stage ends, restarts and inprocessing')

p('C05', 'A proof that could not be written completely is never announced as saved',
  "If the proof file cannot be created or any write to it fails (full disk, I/O error), the splr command still gives the right verdict, but does not announce a certificate file; short or interrupted writes that can be continued do not damage the proof. "
  "Whenever a certificate file is announced, the file is present, complete and a valid refutation of the input.",
  ['fault_sequences', 'inputs'],
  "every position and kind of failure among the operations on the proof file (create, write, short write, EINTR, EIO, ENOSPC at any byte)",
  "no test makes a write fail; whether the loss is noticed depends on where in the buffered output the failure falls",
  ['src/cdb/unsat_certificate.rs', 'src/bin/splr.rs', 'src/solver/build.rs'],
  [('proof writer', 'src/cdb/unsat_certificate.rs dump_to_file, close'), ('announcement', 'src/bin/splr.rs save_result')],
  ['stdout line announcing the certificate', 'the proof file'])

p('C06', 'The solver time limit is honoured: not early, not ignored, never a wrong answer',
  "Solving reports a time-out only if the configured number of seconds has really elapsed since the solver was created, and once it has elapsed a solve that has not finished returns within a bounded amount of further work. "
  "A run in which the limit passes, at whatever moment, either reports the time-out or gives the right verdict.",
  ['inputs', 'schedules', 'fault_sequences', 'configurations'],
  "every moment (clock observation, allocation) at which the clock passes the limit, clock stalls and jumps, every whole number of seconds as the limit, long and short searches",
  "no test lets the limit pass: the default is 5000 seconds and the clock is real",
  ['src/state.rs', 'src/solver/search.rs', 'src/solver/stage.rs', 'src/processor/simplify.rs', 'src/config.rs'],
  [('elapsed fraction of the limit', 'src/state.rs State::elapsed'), ('check at stage ends', 'src/solver/search.rs search'), ('elimination cut-off', 'src/processor/simplify.rs eliminate')],
  ['result of solve', 'clock readings'])

p('C07', 'The command-line time-out and the solver never give contradicting reports',
  "With the SPLR_TIMEOUT variable set, one run of the splr command prints at most one result line (satisfiable, unsatisfiable or unknown) and its exit status is the one that belongs to that line, however the time-out falls relative to solving, printing and file writing. "
  "The time-out is never reported before the given number of seconds, and a result reported as found comes with its complete answer file.",
  ['schedules', 'fault_sequences', 'inputs'],
  "every interleaving of the time-out thread with the main thread at every system call, allocation and lock operation; every moment of expiry",
  "no test runs the binary with the time-out; the race window is microseconds wide on real hardware",
  ['src/bin/splr.rs'],
  [('time-out thread', 'src/bin/splr.rs main'), ('result report', 'src/bin/splr.rs save_result')],
  ['stdout, exit status and answer file of the splr command'])

p('C08', 'The clause limit ends a solve with a resource error, never a wrong verdict',
  "With any limit on the number of clauses, solving a formula either gives the right verdict (with a correct model) or reports memory exhaustion; it never turns the limit into a wrong verdict, a time-out, an internal error or a crash. "
  "Memory exhaustion is reported only when the limit is set and the clauses given plus those derived really reach it.",
  ['configurations', 'inputs', 'schedules'],
  "every value of the clause limit relative to the size of the formula, every moment of search or preprocessing at which it is reached",
  "no test sets the limit; it can be hit inside elimination, before search, or never",
  ['src/cdb/db.rs', 'src/solver/search.rs', 'src/processor/eliminate.rs', 'src/processor/simplify.rs', 'src/config.rs'],
  [('size check', 'src/cdb/db.rs check_size'), ('mapping to an error', 'src/solver/search.rs Solver::solve')],
  ['result of solve'])

p('C09', 'Verdict line, exit status and answer file of the splr command agree',
  "When the splr command ends normally, its exit status is 10, 20 or 0 exactly when its result line says satisfiable, unsatisfiable or unknown, and an announced answer file contains the same verdict and, for satisfiable, the complete model. "
  "If the answer file cannot be created or completely written, the command says so (or shows the answer on standard output instead), and the result line and exit status stay right.",
  ['fault_sequences', 'inputs', 'configurations'],
  "every position and kind of failure among the operations on the answer file and standard output (create, write, short write, EINTR, EIO, ENOSPC at any byte), every combination of output options",
  "no test runs the binary at all, and none makes a write fail",
  ['src/bin/splr.rs', 'src/config.rs'],
  [('result report', 'src/bin/splr.rs save_result'), ('exit status', 'src/bin/splr.rs main')],
  ['stdout, exit status and answer file of the splr command'])

p('C10', 'A crash at any instant leaves nothing behind that certifies a wrong result',
  "If the splr command is killed at any instant of its run, the input file is unchanged, and whatever answer or proof file it leaves never passes for a result it is not: a file that states satisfiable with a terminated literal list is a complete model, and a proof file that refutes the input exists only for an unsatisfiable input. "
  "Running the command again in the same directory gives the right result as if the crash had not happened.",
  ['crash_points', 'fault_sequences', 'inputs'],
  "a kill at every input/output operation of a run, with the operation in flight torn after any number of bytes, and any sequence of crashes and restarts in one directory",
  "no test kills a run; crash points between and inside writes are only reachable by controlling the operating system calls",
  ['src/bin/splr.rs', 'src/cdb/unsat_certificate.rs', 'src/bin/dmcr.rs'],
  [('order of writes in the report', 'src/bin/splr.rs save_result'), ('truncation at creation', 'src/bin/splr.rs, src/cdb/unsat_certificate.rs'), ('terminator of a proof', 'src/cdb/unsat_certificate.rs close')],
  ['files left in the working directory', 'output of the next splr and dmcr runs'])

p('C11', 'Loading a formula is immune to how the reads happen, and read errors are errors',
  "However the reads of a formula file are split or interrupted, the loaded formula is the one in the file, for both the solver and the formula container. "
  "If the file cannot be opened or a read fails, loading returns an error; if the contents are corrupted so that a literal exceeds the declared number of variables, loading a solver returns an error as documented, and the formula container either returns an error or holds exactly what the file says. "
  "Loading never crashes the caller on such faults, and no verdict is ever given that rests on the readable part of a file that could not be read.",
  ['fault_sequences', 'inputs'],
  "every way of splitting the file into reads, EINTR anywhere, a read error at every position, corruption of any literal beyond the declared range",
  "tests read small local files in one read call; read errors and split reads never occur there",
  ['src/types/cnf.rs', 'src/solver/build.rs', 'src/cnf/mod.rs', 'src/bin/splr.rs', 'src/bin/dmcr.rs'],
  [('header reader', 'src/types/cnf.rs CNFReader::try_from'), ('clause reader', 'src/solver/build.rs Solver::inject'), ('formula container loader', 'src/cnf/mod.rs CNF::load')],
  ['result of building a solver from a file', 'result of loading a formula container', 'splr command'])

p('C12', 'The same input and options give the same answer, model and proof',
  "Two runs on the same formula with the same options return the same verdict, the same model and the same proof, independently of hash seeds, memory addresses, the pace of the clock well before the time limit, how file reads are split, and where the output is written. ",
  ['schedules', 'fault_sequences', 'inputs', 'configurations'],
  "every pair of runs that differ only in hash seeds, address-space layout, clock pace below a tenth of the limit, read and write sizes, or working directory",
  "a test observes one run; dependence on hash order or time shows only by comparing runs under controlled differences",
  ['src/solver/search.rs', 'src/assign/select.rs', 'src/assign/stack.rs', 'src/cdb/db.rs', 'src/cdb/binary.rs', 'src/processor/simplify.rs', 'src/state.rs'],
  [('no random choice in the search', 'src/assign/select.rs'), ('time is read only against the limit', 'src/state.rs State::elapsed')],
  ['result of solve', 'proof file', 'v-line'])

p('C13', 'Independent solvers in one process do not influence each other',
  "Solvers created and run in different threads of one process, in any interleaving, each return exactly the verdict, model and proof that they return when run alone. "
  "A solver that is dropped, times out or reports an error does not affect any other.",
  ['schedules', 'histories', 'inputs'],
  "every interleaving of several solvers' operations at allocations, clock readings and system calls, with any mix of time-outs, limits and drops among them",
  "tests run one solver at a time; interference would need a shared state that only interleaved runs disturb",
  ['src/solver/mod.rs', 'src/solver/build.rs', 'src/cdb/db.rs', 'src/assign/stack.rs', 'src/state.rs', 'src/cdb/unsat_certificate.rs'],
  [('all state is owned by the solver value', 'src/solver/mod.rs Solver'), ('proof sink owned by the solver', 'src/cdb/unsat_certificate.rs CertificationStore')],
  ['results and proof files of each solver'])

p('C14', 'A history of additions and copies is solved as the formula it builds',
  "After any sequence of adding variables, clauses and assignments to a solver, interleaved with rejected additions and with taking copies, solving answers for exactly the conjunction of what was accepted: a rejected invalid literal leaves the formula unchanged, and an addition is refused as conflicting only if the formula with it has no model. "
  "A copy taken at any point evolves independently of its original, also when the original records a proof and when either one runs into its time limit.",
  ['histories', 'inputs', 'configurations', 'schedules'],
  "every sequence of add-variable, add-clause, add-assignment (valid, duplicate, tautological, out-of-range, conflicting), copy and drop operations before solving, in any interleaving over the copies",
  "tests exercise a few fixed sequences on one small file",
  ['src/solver/build.rs', 'src/solver/mod.rs', 'src/assign/stack.rs', 'src/cdb/db.rs', 'src/cdb/unsat_certificate.rs'],
  [('incremental construction', 'src/solver/build.rs add_assignment, add_clause, add_var'), ('copies', 'src/solver/mod.rs Clone'), ('proof store does not follow a copy', 'src/cdb/unsat_certificate.rs Clone')],
  ['results of the calls and of solve'])

p('C15', 'Saving a formula is lossless, or fails loudly',
  "A formula container that is saved and loaded again, and the clause dump of a solver that has not started solving, represent the same formula: the same number of variables and the same models. "
  "If any write of saving a container fails, including the last one, the save reports an error instead of success; short and interrupted writes do not change the result.",
  ['fault_sequences', 'histories', 'inputs'],
  "every formula and every sequence of additions before the save, every position and kind of failure among the operations of the save (create, write, short write, EINTR, EIO, ENOSPC at any byte)",
  "tests compare the text of one tiny formula in memory; none saves under faults or reloads what was saved",
  ['src/cnf/mod.rs', 'src/cdb/db.rs'],
  [('writer', 'src/cnf/mod.rs CNF::save, dump_to_string'), ('loader', 'src/cnf/mod.rs CNF::load'), ('solver dump', 'src/cdb/db.rs dump_cnf')],
  ['result of save and load', 'the saved file'])

p('C16', 'The model checker accepts exactly the assignments that satisfy the formula',
  "The dmcr command reports a valid assignment only if the literals in the answer file are consistent and, together with the literals forced by the formula's own unit clauses, satisfy every clause; every complete correct answer is reported valid. "
  "Truncation, corruption and read errors of the answer file, out-of-range literals included, lead to a rejection or an abort, never to acceptance of a non-model, and a report of invalidity names a clause that the assignment does not satisfy.",
  ['fault_sequences', 'inputs'],
  "every answer file derived from a correct one by truncation at any byte, flipped bits, lost or duplicated blocks and foreign literals; every split or failure of the reads",
  "no test runs dmcr or feeds it damaged files",
  ['src/bin/dmcr.rs', 'src/solver/validate.rs', 'src/cdb/db.rs', 'src/assign/stack.rs'],
  [('answer reader', 'src/bin/dmcr.rs read_assignment'), ('injection', 'src/solver/validate.rs inject_assignment'), ('clause check', 'src/cdb/db.rs validate')],
  ['output of the dmcr command', 'result of inject_assignment and validate'])

# --- not simulation targets
p('C19', 'Every syntactically valid DIMACS text denotes the formula the format defines',
  "A DIMACS file in which clauses span several lines or share a line is read as the clauses that the zero terminators delimit.",
  ['inputs'], "every layout of a valid DIMACS text", "the sample files have one clause per line",
  ['src/solver/build.rs', 'src/cnf/mod.rs'], [('clause reader', 'src/solver/build.rs Solver::inject')], ['loaded formula'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        x['statement'] = x['statement'].strip()
        f.write(json.dumps(x) + '\n')
print(len(P))

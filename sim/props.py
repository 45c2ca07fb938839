"""what each check runs: variant of the build, seeds per tier, and the words of its evidence"""
SEQ_REAL = ["scanner, grammar and AST builders", "semantic checks", "optimiser", "executors", "catalogue, tables, rows, datablocks, vacuum",
            "containers used by them", "regular expressions and number conversion of libc"]
SEQ_STUBS = ["malloc, calloc, realloc, strdup, strndup and free: counted, tracked, filled with a pattern, and failed on command; the memory itself comes from libc "
             "with the guards of the address sanitizer",
             "regcomp, pthread_mutex_init/lock/trylock/unlock/destroy: counted, failed on command; a lock taken twice or left held is a violation",
             "exit, abort and failed assertions: recorded as the death of the process"]
SEQ_RULE = ("a seed draws a configuration (kinds and weights of operations, types, value domains, widths, fault kinds, time zone, heap filling) and then a history "
            "of operations from it; evaluations are histories run to their end against the model, and two of them are distinct when the sequence of operations, "
            "statement kinds and outcomes differs; runs of less than 3 operations aren't generated")
ASSUME = ["the reference model (sim/model.cpp) states the relational meaning of the supported dialect; features the engine accepts and ignores (ORDER BY, LIMIT, DISTINCT, "
          "HAVING, UNIQUE, PRIMARY KEY, AUTO_INCREMENT) are outside of it",
          "seeded search samples histories: it shows presence, not absence, of violations", "gcc/clang and libc are trusted"]


def seq(quick, thorough, level="exploration", what="", assume=()):
    return dict(variant="seq", seeds=(quick, thorough), level=level, rule=SEQ_RULE + (". " + what if what else ""), real=SEQ_REAL, stubs=SEQ_STUBS,
                assumptions=ASSUME + list(assume))


DS_RULE = ("a seed draws a configuration (order of the tree or kinds of containers, key domain and pattern, growth and shrinking phases, allocation faults, heap filling, whether "
           "freed memory comes back at once) and a history of 30 to 2500 operations; evaluations are histories run to their end against the model, and two of them are "
           "distinct when the sequence of operations and their outcomes differs")


def ds(quick, thorough, what, extra):
    return dict(variant="seq", seeds=(quick, thorough), level="exploration", rule=DS_RULE + ". " + what, real=["the data structures of src/datastructure, through their public functions"],
                stubs=SEQ_STUBS[:1], extra=extra,
                assumptions=["seeded search samples histories: it shows presence, not absence, of violations", "gcc/clang and libc are trusted"])


THR_STUBS = ["threads: one process, one real thread; every simulated thread is a fiber with a stack of its own, and a seeded scheduler decides after each shared memory access, lock "
             "operation and call into the heap which one goes on (compiler instrumentation of all of the engine, the generated scanner and parser included)",
             "mutexes, read-write locks, spin locks, once: of the simulator, blocking a simulated thread; a deadlock or a lock left held is a violation",
             "malloc, calloc, realloc, strdup, strndup and free: an arena of the simulator that never hands the same address out twice within a run, failed on command; "
             "reads and writes outside of live blocks, reads of freed memory and unordered conflicting accesses (vector clocks) are violations",
             "exit, abort and failed assertions: recorded as the death of the process"]
THR_RULE = ("a seed draws a history, its distribution over two to four threads, and a schedule (random turns, random priorities with few changes, turns at locks only, or turns at memory "
            "several threads use; with or without stalled threads); evaluations are runs to their end, and two of them are distinct when the order of lock operations, or of statements "
            "and their outcomes, differs")


def thr(quick, thorough, what):
    return dict(variant="threads", seeds=(quick, thorough), level="exploration", rule=THR_RULE + ". " + what, real=SEQ_REAL, stubs=THR_STUBS, assumptions=ASSUME + [
        "memory is sequentially consistent; accesses that a weaker memory could reorder are reported as data races instead", "libc functions the engine calls (printf, strtod, "
        "regexec) are thread safe as POSIX says and don't switch threads inside"],
        tech="simulated threads under a seeded scheduler with data-race detection; outcomes checked for linearizability against a reference model",
        extra=["stalls_of_threads", "runs_with_random_turns", "runs_with_priorities", "runs_with_turns_at_locks_only", "runs_focused_on_shared_memory", "",
               "search_nodes_for_a_sequential_order", "searches_without_verdict"])


PROPS = {
    "P01": seq(4000, 150000, what="Here: up to three databases open at once, 40 to 110 operations"),
    "P02": seq(420, 20000, "fault_enumeration", "Here: for a statement picked by the seed, the n-th allocation fails, for every n until the statement needs no more; the whole state is "
               "compared after each failure, and the statement runs again without it", ["one allocation fails per execution; failures for a stretch are P03's"]),
    "P03": seq(4000, 150000, what="Here: faults of one or several kinds, once or for a stretch, in 10 to 60 % of the operations, each followed by a comparison of the whole state and by a retry"),
    "P04": seq(4000, 150000, what="Here: opening, closing, holding and releasing results and row operations mixed; memory is balanced after each operation and at the end"),
    "P05": seq(3200, 150000, what="Here: up to four results held over up to 400 rows; the storage of a held result is compared whenever the history looks at it"),
    "P06": seq(1200, 40000, what="Here: tables of up to 120 columns and 600 rows over many blocks, deletions by statement and by row"),
    "P07": seq(1100, 40000, what="Here: tables of up to 128 columns and 300 rows"),
    "P08": seq(900, 40000, what="Here: up to 160 tables per database and up to 130 columns per table; failures of locks, allocations and patterns"),
    "P09": seq(4000, 150000, what="Here: 40 % of the statements break a constraint on purpose"),
    "P10": seq(4400, 150000, what="Here: predicates up to five levels deep in SELECT, DELETE and UPDATE"),
    "P11": seq(2400, 100000, what="Here: joins of up to four tables, GROUP BY and COUNT"),
    "P12": thr(14000, 250000, "Here: after a sequential prologue 2 to 10 statements run on two to four threads against one to three databases, some threads working on databases of "
               "their own first; an order of the statements must explain all outcomes, results, row counts and the final tables, and respect calls and returns"),
    "P13": thr(24000, 600000, "Here: up to four threads insert, delete, update, vacuum and change columns of up to three shared tables, holding the locks of one or two of them, and of tables "
               "of their own without a lock; each table is compared with the model after each operation"),
    "P14": ds(18000, 600000, "Here: B-trees of minimum degree 2 to 100, number and string keys, up to 6000 keys; keys and values are released as soon as the tree lets go of them, and "
              "probes right after the call; structure, order and bindings are compared after every operation",
              ["inserts", "removals", "updates", "lookups", "full_comparisons", "trees_rebuilt"]),
    "P15": ds(14000, 600000, "Here: two hash tables, vectors, queues, stacks and lists side by side, with colliding hashes in 30 % of the seeds; everything handed over is released right "
              "after the call", ["", "", "", "", "", "", "hash_table_operations", "vector_operations", "queue_operations",
                                 "stack_operations", "list_operations", "bursts_of_one_operation"]),
    "P16": seq(4000, 150000, what="Here: most statements are mutated, truncated, oversized or unsupported"),
    "P17": seq(4000, 150000, what="Here: dates around limits, under five time zones"),
}

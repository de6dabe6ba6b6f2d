// -*- mode: Bluespec; -*-
/// Many threads using one library (C25).  The only state the threads share are tables that
/// the first user fills in; a question is answered from its arguments and those tables, so
/// the same question has the same answer whoever asks, whenever, and whatever was asked before.
/// Behaviours of this machine are the schedules in which the calls of the other modules are
/// replayed.
module world {
  /// number of threads, of kinds of question, of tables
  const NT: int
  const NS: int
  const NTAB: int

  pure val THREADS = 0.to(NT - 1)
  pure val TABLES = 0.to(NTAB - 1)
  pure val UNSET = 0
  pure val BUSY = 1
  pure val READY = 2
  pure val IDLE = 0
  pure val ASKING = 1
  pure val FILLING = 2

  /// a question: kind, number, variant (0 the question itself)
  type Question = { src: int, num: int, var0: int }
  type Event = { op: str, ints: List[int], fs: List[int], kind: str, exp: List[{ lo: int, hi: int }], tag: str }

  /// how far each table is, what it holds, and how often it was filled
  var stage: int -> int
  var holds: int -> int
  var fills: int -> int
  /// what each thread is doing, and with which question
  var doing: int -> int
  var about: int -> Question
  /// the question each thread asked last of each kind
  var recent: (int, int) -> int
  var answers: Set[{ q: Question, a: int }]
  var c: Event

  pure def tableOf(q: Question): int = q.src % NTAB
  /// any fixed contents and any fixed function of arguments and contents
  pure def contents(t: int): int = t + 5
  pure def answer(q: Question, held: int): int = 16 * (64 * q.src + 8 * q.num + q.var0) + held
  pure def ev(op: str, ints: List[int]): Event = { op: op, ints: ints, fs: [], kind: "any", exp: [], tag: "" }
  pure val QUIET = ev("nop", [])
  pure val NOQ: Question = { src: 0, num: 0, var0: 0 }

  action init = all {
    stage' = TABLES.mapBy(t => UNSET), holds' = TABLES.mapBy(t => 0), fills' = TABLES.mapBy(t => 0),
    doing' = THREADS.mapBy(t => IDLE), about' = THREADS.mapBy(t => NOQ),
    recent' = tuples(THREADS, 0.to(NS - 1)).mapBy(p => 0),
    answers' = Set(), c' = QUIET,
  }
  /// a thread asks: 0 a new question, 1 its last one again, 2 .. 5 a variant of its last one
  /// (one number nudged at place `pos` by 2^-k, two numbers exchanged, one negated, all nudged),
  /// 6 its last one between nudges of each of its numbers in turn
  action ask = {
    nondet th = THREADS.filter(x => doing.get(x) == IDLE).oneOf()
    nondet s = 0.to(NS - 1).oneOf()
    nondet how = Set(0, 1, 2, 3, 4, 5, 6).oneOf()
    nondet pos = 0.to(1000).oneOf()
    nondet k = 2.to(40).oneOf()
    val num = recent.get((th, s)) + (if (how == 0) 1 else 0)
    all {
      doing.get(th) == IDLE,
      doing' = doing.set(th, ASKING),
      about' = about.set(th, { src: s, num: num, var0: if (how < 2) 0 else how }),
      recent' = recent.set((th, s), num),
      stage' = stage, holds' = holds, fills' = fills, answers' = answers,
      c' = ev("ask", [th, s, how, pos, k]),
    }
  }
  /// the first user of a table fills it; the others wait
  action claim = {
    nondet th = THREADS.filter(x => doing.get(x) == ASKING and stage.get(tableOf(about.get(x))) == UNSET).oneOf()
    val t = tableOf(about.get(th))
    all {
      doing.get(th) == ASKING, stage.get(t) == UNSET,
      stage' = stage.set(t, BUSY), doing' = doing.set(th, FILLING),
      about' = about, recent' = recent, holds' = holds, fills' = fills, answers' = answers, c' = QUIET,
    }
  }
  action filled = {
    nondet th = THREADS.filter(x => doing.get(x) == FILLING).oneOf()
    val t = tableOf(about.get(th))
    all {
      doing.get(th) == FILLING,
      stage' = stage.set(t, READY), holds' = holds.set(t, contents(t)), fills' = fills.set(t, fills.get(t) + 1),
      doing' = doing.set(th, ASKING),
      about' = about, recent' = recent, answers' = answers, c' = QUIET,
    }
  }
  action reply = {
    nondet th = THREADS.filter(x => doing.get(x) == ASKING and stage.get(tableOf(about.get(x))) == READY).oneOf()
    val t = tableOf(about.get(th))
    all {
      doing.get(th) == ASKING, stage.get(t) == READY,
      doing' = doing.set(th, IDLE),
      answers' = answers.union(Set({ q: about.get(th), a: answer(about.get(th), holds.get(t)) })),
      stage' = stage, holds' = holds, fills' = fills, about' = about, recent' = recent, c' = QUIET,
    }
  }
  action step = any { ask, claim, filled, reply }

  // ---- properties ---------------------------------------------------------------
  /// an answer is a function of the question
  val functional = answers.forall(x => answers.forall(y => x.q == y.q implies x.a == y.a))
  /// and it is the one a lone thread would get
  val asIfAlone = answers.forall(x => x.a == answer(x.q, contents(tableOf(x.q))))
  /// every table is filled at most once, by one thread
  val once = TABLES.forall(t => fills.get(t) <= 1 and (stage.get(t) == READY) == (fills.get(t) == 1)
    and THREADS.filter(th => doing.get(th) == FILLING and tableOf(about.get(th)) == t).size() == (if (stage.get(t) == BUSY) 1 else 0))
  /// nobody waits for ever: a waiting thread's table is ready, free to claim, or being filled
  val noDeadlock = THREADS.forall(th => doing.get(th) == ASKING implies {
    val t = tableOf(about.get(th))
    stage.get(t) != BUSY or THREADS.exists(o => doing.get(o) == FILLING and tableOf(about.get(o)) == t)
  })
}
module worldSim {
  import world(NT = 8, NS = 19, NTAB = 5).*
}
/// everybody asks the same kind of question
module worldFocus {
  import world(NT = 8, NS = 1, NTAB = 1).*
}
module worldMc {
  import world(NT = 3, NS = 2, NTAB = 2).*
}

"""C11: the ready-made domains follow the rules of their games."""
from vsym.registry import harness
from vsym.engine import land, lor, smin, ite
from skdecide.hub.domain.maze import Maze
from skdecide.hub.domain.maze.maze import Action as MA, State as MS, DEFAULT_MAZE
from skdecide.hub.domain.mastermind.mastermind import MasterMind, Score, State as MMState
from skdecide.hub.domain.simple_grid_world import simple_grid_world as G
from skdecide.hub.domain.rock_paper_scissors.rock_paper_scissors import Move, RockPaperScissors

MOVES = {"up": (0, -1), "down": (0, 1), "left": (-1, 0), "right": (1, 0)}


def inside(space, x):
    return bool(space.contains(x))


# ---------------------------------------------------------------- grid world
@harness("C11", "grid", configs=[dict(a=a) for a in MOVES], expect=("move", "bump"), functions=["SimpleGridWorld"],
         bounds="every grid up to 8x8, every position, every action")
def grid(ctx):
    w, h = ctx.int("cols", 1, 8), ctx.int("rows", 1, 8)
    x, y = ctx.int("x", 0, 7), ctx.int("y", 0, 7)
    ctx.assume(land(x < w, y < h))
    dom = G.SimpleGridWorld(w, h)
    act = G.Action[ctx.config["a"]]
    dx, dy = MOVES[ctx.config["a"]]
    s = G.State(x, y)
    n = dom.get_next_state(s, act)
    ok = land(x + dx >= 0, x + dx < w, y + dy >= 0, y + dy < h)
    ctx.check(land(n.x == ite(ok, x + dx, x), n.y == ite(ok, y + dy, y)), "a move goes one cell that way unless outside")
    v = dom.get_transition_value(s, act, n)
    ctx.check(v.cost == ite(ok, 1, 2), "a move costs 1, bumping into the border costs 2")
    ctx.check(v.reward == -v.cost, "reward")
    goal = land(n.x == w - 1, n.y == h - 1)
    ctx.check(bool(dom.is_terminal(n)) == bool(goal), "an episode ends in the last cell")
    ctx.check(bool(dom.is_goal(n)) == bool(goal), "the goal is the last cell")
    i = dom.reset()
    ctx.check(land(i.x == 0, i.y == 0), "episodes start in the first cell")
    ctx.check(dom.get_initial_state() == G.State(0, 0), "initial state")
    dom.set_memory(s)
    o = dom.step(act)
    ctx.check(land(o.observation.x == n.x, o.observation.y == n.y, o.value.cost == v.cost), "step")
    ctx.check(bool(o.termination) == bool(goal), "step termination")
    ctx.check([a.name for a in dom.get_action_space().get_elements()] == list(MOVES), "four actions")
    ctx.check(dom.is_applicable_action(act, s), "every action is always applicable")
    ctx.reach("move" if ok else "bump")


@harness("C11", "grid_space", configs=({},), expect=("end",), functions=["SimpleGridWorld.get_observation_space"],
         bounds="every grid up to 3x3 and position -1..4")
def grid_space(ctx):
    w, h = 1 + ctx.index("w", 3), 1 + ctx.index("h", 3)
    x, y = ctx.index("x", 6) - 1, ctx.index("y", 6) - 1
    dom = G.SimpleGridWorld(w, h)
    ctx.check(bool(dom.is_observation(G.State(x, y))) == (0 <= x < w and 0 <= y < h), "cells of the grid are the observations")
    ctx.reach("end")


# ---------------------------------------------------------------- maze
def rows(text):
    return [list(l.rstrip()) for l in text.strip().split("\n")]


def check_maze(ctx, text, x, y, a):
    cells = rows(text)
    dom = Maze(text)
    start = [(c, r) for r, l in enumerate(cells) for c, k in enumerate(l) if k == "o"][-1]
    goal = [(c, r) for r, l in enumerate(cells) for c, k in enumerate(l) if k == "x"][-1]
    act = MA[a]
    dx, dy = MOVES[a]
    s = MS(x, y)
    n = dom.get_next_state(s, act)
    tx, ty = x + dx, y + dy
    free = lor(*[land(tx == c, ty == r) for r, l in enumerate(cells) for c, k in enumerate(l) if k in " ox"])
    ctx.check(land(n.x == ite(free, tx, x), n.y == ite(free, ty, y)), "a move goes one cell that way unless into a wall")
    v = dom.get_transition_value(s, act, n)
    ctx.check(v.cost == ite(free, 1, 2), "a move costs 1, bumping into a wall costs 2")
    g = land(n.x == goal[0], n.y == goal[1])
    ctx.check(bool(dom.is_goal(n)) == bool(g) and bool(dom.is_terminal(n)) == bool(g), "the exit is the goal and the end")
    ctx.check(dom.get_initial_state() == start and dom.reset() == start, "episodes start at the entrance")
    dom.set_memory(s)
    o = dom.step(act)
    ctx.check(land(o.observation.x == n.x, o.observation.y == n.y, o.value.cost == v.cost), "step")
    ctx.check(bool(o.termination) == bool(g), "step termination")
    ctx.check([k.name for k in dom.get_action_space().get_elements()] == list(MOVES), "four actions")
    ctx.reach("move" if free else "bump")


@harness("C11", "maze", configs=[dict(a=a, shape=s) for a in MOVES for s in ((3, 3), (4, 2), (2, 4))],
         expect=("move", "bump"), functions=["Maze"],
         bounds="every maze of 3x3, 4x2 and 2x4 characters (walls lazily arbitrary), every free position and action")
def maze(ctx):
    w, h = ctx.config["shape"]
    x, y = ctx.index("x", w), ctx.index("y", h)
    dx, dy = MOVES[ctx.config["a"]]
    grid = [["#"] * w for _ in range(h)]
    free = [(c, r) for r in range(h) for c in range(w)]
    # only the cells around the position are varied; the first and last line must not be blank
    for c, r in free:
        if abs(c - x) + abs(r - y) == 1:
            if ctx.bool("free%d.%d" % (c, r)):
                grid[r][c] = " "
    grid[y][x] = " "
    o, e = ctx.choice("entrance", [(0, 0), (w - 1, 0), (x, y)]), ctx.choice("exit", [(0, h - 1), (w - 1, h - 1)])
    ctx.assume(o != e)
    grid[o[1]][o[0]] = "o"
    grid[e[1]][e[0]] = "x"
    ctx.assume(any(k != " " for k in grid[0]) and any(k != " " for k in grid[-1]))
    ctx.assume(all(r[-1] != " " for r in grid) and grid[0][0] != " ")
    check_maze(ctx, "\n".join("".join(r) for r in grid), x, y, ctx.config["a"])


@harness("C11", "default_maze", configs=[dict(a=a, band=b) for a in MOVES for b in range(0, 21, 3)],
         expect=("move", "bump"), functions=["Maze"], bounds="the default maze, every free position and action")
def default_maze(ctx):
    cells = rows(DEFAULT_MAZE)
    b = ctx.config["band"]
    y = b + ctx.index("y", min(3, len(cells) - b))
    x = ctx.int("x", 0, len(cells[0]) - 1)
    ctx.assume(lor(*[x == c for c, k in enumerate(cells[y]) if k in " ox"]))
    check_maze(ctx, DEFAULT_MAZE, x, y, ctx.config["a"])


@harness("C11", "maze_space", configs=({},), expect=("end",), functions=["Maze.get_observation_space"],
         bounds="a 3x2 maze, positions -1..4")
def maze_space(ctx):
    x, y = ctx.index("x", 6) - 1, ctx.index("y", 6) - 1
    ctx.check(bool(Maze("o #\n##x").is_observation(MS(x, y))) == (0 <= x < 3 and 0 <= y < 2), "cells are the observations")
    ctx.reach("end")


# ---------------------------------------------------------------- mastermind
@harness("C11", "mastermind", configs=lambda t: [dict(c=c, p=p) for c, p in
                                                 ((2, 2), (3, 2), (2, 3), (3, 3), (2, 4)) + (((3, 4), (4, 4)) if t != "quick"
                                                                                             else ())],
         expect=("win", "lose"), functions=["MasterMind"],
         bounds="2-3 colours and 2-4 positions (up to 4x4 thorough), every solution, guess and previous score")
def mastermind(ctx):
    c, p = ctx.config["c"], ctx.config["p"]
    dom = MasterMind(c, p)
    sol = tuple(ctx.ints("s", p, 0, c - 1))
    guess = tuple(ctx.ints("g", p, 0, c - 1))
    last = Score(ctx.int("bulls", 0, p), ctx.int("cows", 0, p))
    s = MMState(sol, last)
    n = dom.get_next_state(s, guess)
    bulls = sum(ite(a == b, 1, 0) for a, b in zip(sol, guess))
    common = sum(smin([sum(ite(a == k, 1, 0) for a in sol), sum(ite(b == k, 1, 0) for b in guess)]) for k in range(c))
    ctx.check(land(*[a == b for a, b in zip(n.solution, sol)]), "the hidden solution never changes")
    ctx.check(n.score.total_bulls == bulls, "bulls are the right colours at the right place")
    ctx.check(n.score.total_cows == common - bulls, "cows are the other colours in common")
    obs = dom.get_observation(n, guess)
    ctx.check(land(obs.total_bulls == bulls, obs.total_cows == common - bulls), "the observation is the score of the guess")
    win = bulls == p
    ctx.check(bool(dom.is_terminal(n)) == bool(win) and bool(dom.is_goal(obs)) == bool(win), "all bulls wins and ends")
    ctx.check(dom.get_transition_value(s, guess, n).cost == 1, "each guess costs 1")
    i = dom.get_observation(s)
    ctx.check(land(i.total_bulls == 0, i.total_cows == 0), "nothing is observed before a guess")
    dom.set_memory(s)
    o = dom.step(guess)
    ctx.check(land(o.observation.total_bulls == bulls, o.observation.total_cows == common - bulls), "step observation")
    ctx.check(bool(o.termination) == bool(win), "step termination")
    ctx.check(o.value.cost == 1, "step cost")
    b, w = int(obs.total_bulls), int(obs.total_cows)
    ctx.check(inside(dom.get_observation_space(), Score(b, w)), "scores belong to the observation space")
    ctx.reach("win" if win else "lose")


@harness("C11", "mastermind_codes", configs=[dict(c=c, p=p) for c, p in ((2, 2), (3, 2), (2, 3), (1, 2))], expect=("end",),
         functions=["MasterMind"], bounds="up to 3 colours and 3 positions, every code, every initial draw")
def mastermind_codes(ctx):
    c, p = ctx.config["c"], ctx.config["p"]
    ctx.stub_random()
    dom = MasterMind(c, p)
    code = tuple(ctx.index("k%d" % i, c) for i in range(p))
    elems = list(dom.get_action_space().get_elements())
    ctx.check(len(elems) == c ** p and elems.count(code) == 1, "the actions are all the codes")
    vals = dom.get_initial_state_distribution().get_values()
    ctx.check(len(vals) == c ** p and abs(sum(q for s, q in vals) - 1) < 1e-9 and
              all(abs(q - vals[0][1]) < 1e-12 for s, q in vals), "every solution is equally likely")
    ctx.check(sum(s.solution == code for s, q in vals) == 1 and all(s.score == Score(0, 0) for s, q in vals), "all codes")
    ctx.check(dom.is_applicable_action(code, vals[0][0]), "every code can be guessed")
    o = dom.reset()
    ctx.check(o == Score(0, 0), "nothing observed at first")
    ctx.reach("end")


# ---------------------------------------------------------------- rock paper scissors
@harness("C11", "rps", configs=({},), expect=("end", "more"), functions=["RockPaperScissors"],
         bounds="every pair of moves, move counts 0..20, limits 1..20")
def rps(ctx):
    m1, m2 = ctx.choice("m1", list(Move)), ctx.choice("m2", list(Move))
    k, lim = ctx.int("played", 0, 20), ctx.int("limit", 1, 20)
    ctx.assume(k < lim)
    dom = RockPaperScissors(lim)
    first = dom.reset()
    ctx.check(set(first) == {"player1", "player2"}, "both players observe")
    from skdecide.hub.domain.rock_paper_scissors.rock_paper_scissors import State
    dom._memory = State(num_move=k)
    o = dom.step({"player1": m1, "player2": m2})
    beats = {(Move.rock, Move.scissors), (Move.paper, Move.rock), (Move.scissors, Move.paper)}
    r = 1 if (m1, m2) in beats else -1 if (m2, m1) in beats else 0
    ctx.check(o.value["player1"].reward == r and o.value["player2"].reward == -r, "rock beats scissors beats paper beats rock")
    ctx.check(o.observation == {"player1": m2, "player2": m1}, "each player sees the move of the other")
    ctx.check(bool(o.termination) == bool(k + 1 >= lim), "the game ends after the announced number of moves")
    o2 = dom.step({"player1": m2, "player2": m1})
    ctx.check(o2.value["player1"].reward == -r and o2.observation["player1"] == m1, "the game is symmetric")
    ctx.check(bool(o2.termination) == bool(k + 2 >= lim), "moves are counted")
    for pl, s in dom.get_action_space().items():
        ctx.check(list(s.get_elements()) == list(Move), "three moves for each player")
    ctx.check(bool(dom.is_applicable_action({"player1": m1, "player2": m2})), "every move is applicable")
    ctx.reach("end" if o.termination else "more")

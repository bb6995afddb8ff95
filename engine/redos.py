"""Exponential ambiguity of a pattern.

A backtracking matcher takes exponential time when some loop of the pattern
can be gone around in two ways over the same text and a failure afterwards
makes it try all combinations.  The pattern is read (never matched): its
character positions are the nodes of a graph; a position reached from itself
through two different walks over one text is the defect."""
from . import relang

ANCHORED = ('fullmatch',)


class Auto:
    def __init__(self, pattern, flags, how):
        self.lang = relang.Lang(pattern, flags, 'fullmatch')
        self.how = how
        self.nfa = self.lang.nfa
        self.chars = relang.alphabet([self.lang])[0]
        self.pos = []           # (predicate, target)
        self.out = {}           # node -> positions leaving it
        for n, es in enumerate(self.nfa.edges):
            for e in es:
                if e[0] == 'c':
                    self.out.setdefault(n, []).append(len(self.pos))
                    self.pos.append((e[1], e[2]))
        self.takes = [frozenset(c for c in self.chars if p(c))
                      for p, _ in self.pos]
        self.memo = {}

    def follow(self, node, prev):
        """position -> number of ways (1, or 2 for several)"""
        # walks without visiting a node twice; only nodes that lead to a
        # position matter
        key = (node, prev)
        if key in self.memo:
            return self.memo[key]
        count = {}
        budget = [20000]

        def go(n, seen):
            budget[0] -= 1
            if budget[0] < 0:
                raise relang.Unable('too many walks')
            for p in self.out.get(n, ()):
                count[p] = min(2, count.get(p, 0) + 1)
            for e in self.nfa.edges[n]:
                if e[0] == 'e' or e[0] == 'm':
                    to = e[-1]
                elif e[0] == 'g' and e[1][0] == 'prev' and e[1][1](prev):
                    to = e[-1]
                else:
                    continue
                if to not in seen:
                    go(to, seen | {to})
        go(node, {node})
        self.memo[key] = count
        return count

    def steps(self, p, c):
        """positions after having read c at position p, with ways"""
        return self.follow(self.pos[p][1], c)

    def ambiguous(self):
        """(text to the loop, text around the loop) or None"""
        n = len(self.pos)
        # plain graph and its components
        succ = [set() for _ in range(n)]
        for p in range(n):
            for c in self.takes[p]:
                succ[p] |= set(self.steps(p, c))
        comp = components(succ)
        start = self.follow(self.lang.start, None)
        for p in range(n):
            loops = any(comp[q] == comp[p] for q in succ[p])
            if not loops:
                continue
            w = self.loop(p, comp)
            if w is None:
                continue
            pre = self.path(start, p)
            if pre is None:
                continue
            if self.can_fail(pre, w, p):
                return pre, w
        return None

    def loop(self, p, comp):
        """text leading from position p to p in two ways"""
        # states: (position of one walk, of the other, already apart)
        first = (p, p, False)
        back = {first: None}
        work = [first]
        i = 0
        while i < len(work):
            st = work[i]
            i += 1
            a, b, apart = st
            for c in sorted(self.takes[a] & self.takes[b]):
                fa, fb = self.steps(a, c), self.steps(b, c)
                for x in fa:
                    if comp[x] != comp[p]:
                        continue
                    for y in fb:
                        if comp[y] != comp[p]:
                            continue
                        ap = apart or x != y or (
                            a == b and fa[x] > 1)
                        nx = (x, y, ap)
                        if nx == (p, p, True):
                            text = [c]
                            while back[st] is not None:
                                st, d = back[st]
                                text.append(d)
                            return ''.join(reversed(text))
                        if nx not in back:
                            back[nx] = (st, c)
                            work.append(nx)
                            if len(work) > 200000:
                                raise relang.Unable('too many pairs')
        return None

    def path(self, start, p):
        back = {q: None for q in start}
        work = list(start)
        i = 0
        while i < len(work):
            q = work[i]
            i += 1
            if q == p:
                text = []
                while back[q] is not None:
                    q, d = back[q]
                    text.append(d)
                return ''.join(reversed(text))
            for c in sorted(self.takes[q]):
                for x in self.steps(q, c):
                    if x not in back:
                        back[x] = (q, c)
                        work.append(x)
        return None

    def ordered(self, nodes, prev):
        """positions in the order in which a matcher tries them; None where
        the whole pattern is satisfied, whatever follows"""
        out, seen = [], set()

        def go(n):
            if n in seen:
                return
            seen.add(n)
            if n == self.lang.end:
                out.append(None)
            out.extend(p for p in self.out.get(n, ()) if p not in out)
            for e in self.nfa.edges[n]:
                if e[0] in 'em' or e[0] == 'g' and e[1][0] == 'prev' and \
                        e[1][1](prev):
                    go(e[-1])
        for n in nodes:
            go(n)
        return out

    def advance(self, threads, c):
        return self.ordered([self.pos[p][1] for p in threads
                             if p is not None and c in self.takes[p]], c)

    def satisfied(self, threads, text):
        """do these come to the end of the pattern within text?"""
        for c in text:
            if None in threads:
                return True
            threads = self.advance(threads, c)
        return None in threads

    def can_fail(self, pre, w, p):
        """will a matcher be at the loop, with nothing tried before it
        satisfied and the rest of the pattern not satisfied yet?"""
        threads = self.ordered([self.lang.start], None)
        for c in pre:
            if self.how not in ANCHORED and None in threads:
                threads = threads[:threads.index(None)]
            threads = self.advance(threads, c)
        if p not in threads:
            return False
        if self.how in ANCHORED:
            return True
        if self.satisfied(threads[:threads.index(p)], w * 3):
            return False
        return not self.satisfied([p], w * 3)


def components(succ):
    n = len(succ)
    index, low, on, comp = {}, {}, set(), [None] * n
    stack, k = [], [0]
    for root in range(n):
        if root in index:
            continue
        work = [(root, iter(sorted(succ[root])))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, itr = work[-1]
            for w in itr:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(succ[w]))))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp[w] = k[0]
                        if w == v:
                            break
                    k[0] += 1
    return comp


def check(pattern, flags=0, how='match'):
    return Auto(pattern, flags, how).ambiguous()

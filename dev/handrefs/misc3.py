import re
F('core/coord_payload.py')
def lines(): return '\n'.join(F.__self__.lines)
def multi(i, *subs):
    s=lines()
    for o,n,c in subs:
        o=o.strip('\n'); n=n.strip('\n')
        assert o in s, (i,o)
        s=s.replace(o,n) if c else s.replace(o,n,1)
    W(i,'',s)
def rx(i, *subs):
    s=lines()
    for o,n in subs:
        s,k=re.subn(o,n,s)
        assert k, (i,o)
    W(i,'',s)
H='''
    @staticmethod
    def _operand(other):
        if isinstance(other, CoordPayload):
            return other.payload
        return other

    def __iter__(self):
'''
rx('cp-operand',(r"        if isinstance\(other, CoordPayload\):\n            self\.payload (\S+) other\.payload\n        else:\n            self\.payload \S+ other\n",r"        self.payload \1 CoordPayload._operand(other)\n"),
 (r"        if isinstance\(other, CoordPayload\):\n            ans = self\.payload (\S+) other\.payload\n        else:\n            ans = self\.payload \S+ other\n        return ans\n",r"        return self.payload \1 self._operand(other)\n"),
 (r"    def __iter__\(self\):\n",H.strip('\n')+'\n'))
rx('cp-cmp',(r"        if isinstance\(other, CoordPayload\):\n            return self\.payload (\S+) other\.payload\n        return self\.payload \S+ other\n",r"        other = other.payload if isinstance(other, CoordPayload) else other\n        return self.payload \1 other\n"))
rx('cp-modfn',(r"        if isinstance\(other, CoordPayload\):\n            self\.payload (\S+) other\.payload\n        else:\n            self\.payload \S+ other\n",r"        self.payload \1 _strip(other)\n"),
 (r"class CoordPayload:\n",r"def _strip(value):\n    return value.payload if isinstance(value, CoordPayload) else value\n\nclass CoordPayload:\n"))
R('cp-not','CoordPayload.__and__',('''
        if isinstance(other, CoordPayload):
            return self.payload & other.payload
        return self.payload & other
''','''
        if not isinstance(other, CoordPayload):
            return self.payload & other
        return self.payload & other.payload
'''))
R('cp-iter','CoordPayload.__iter__',('''
        yield self.coord
        yield self.payload
''','''
        yield from (self.coord, self.payload)
'''))
R('cp-iter2','CoordPayload.__iter__',('''
        yield self.coord
        yield self.payload
''','''
        return iter((self.coord, self.payload))
'''))

F('core/metrics.py')
M=lines()
rx('m-index',(r"        if rank in cls\.line_order:\n            i = cls\.line_order\[rank\]\n            cls\.point\[i\] = coord\n        else:\n            i = cls\.line_order\[cls\.rank_matches\[rank\]\]\n",
"        i = cls.getIndex(rank)\n        if rank in cls.line_order:\n            cls.point[i] = coord\n"))
rx('m-line',(r"            i = cls\.line_order\[cls\.rank_matches\[rank\]\]\n","            i = cls._line(rank)\n"),
 (r"        if rank in cls\.line_order:\n            cls\.iteration\[cls\.line_order\[rank\]\] = 0\n        else:\n            cls\.iteration\[cls\.line_order\[cls\.rank_matches\[rank\]\]\] = 0\n","        cls.iteration[cls._line(rank)] = 0\n"),
 (r"        if line in cls\.line_order\.keys\(\):\n            cls\.iteration\[cls\.line_order\[line\]\] \+= 1\n        else:\n            cls\.iteration\[cls\.line_order\[cls\.rank_matches\[line\]\]\] \+= 1\n","        cls.iteration[cls._line(line)] += 1\n"),
 (r"        if rank in cls\.line_order:\n            end = cls\.line_order\[rank\] \+ 1\n        else:\n            end = cls\.line_order\[cls\.rank_matches\[rank\]\] \+ 1\n","        end = cls._line(rank) + 1\n"),
 (r"    @classmethod\n    def addUse","    @classmethod\n    def _line(cls, rank):\n        if rank in cls.line_order:\n            return cls.line_order[rank]\n        return cls.line_order[cls.rank_matches[rank]]\n\n    @classmethod\n    def addUse"))
rx('m-fname',(r"open\(cls\.prefix \+ '-' \+ rank \+ '-' \+ type_ \+ '\.csv', ","open(cls._traceFile(rank, type_), "),
 (r"    @classmethod\n    def addUse","    @classmethod\n    def _traceFile(cls, rank, type_):\n        return f'{cls.prefix}-{rank}-{type_}.csv'\n\n    @classmethod\n    def addUse"))
R('m-incc','Metrics.incCount',('''
        if line not in cls.metrics:
            cls.metrics[line] = {}
        if metric not in cls.metrics[line]:
            cls.metrics[line][metric] = 0
        cls.metrics[line][metric] += inc
''','''
        counts = cls.metrics.setdefault(line, {})
        counts[metric] = counts.get(metric, 0) + inc
'''))
R('m-head','Metrics._startTrace',('''
        pos = ','.join((r + '_pos' for r in cls.loop_order[:end]))
        coord = ','.join((r for r in cls.loop_order[:end]))
        headings = [pos, coord, 'fiber_pos']
        headings = list((r + '_pos' for r in cls.loop_order[:end])) + cls.loop_order[:end] + ['fiber_pos']
''','''
        ranks = cls.loop_order[:end]
        headings = [r + '_pos' for r in ranks]
        headings.extend(ranks)
        headings.append('fiber_pos')
'''))
R('m-head2','Metrics._startTrace',('''
        pos = ','.join((r + '_pos' for r in cls.loop_order[:end]))
        coord = ','.join((r for r in cls.loop_order[:end]))
        headings = [pos, coord, 'fiber_pos']
        headings = list((r + '_pos' for r in cls.loop_order[:end])) + cls.loop_order[:end] + ['fiber_pos']
''','''
        ranks = cls.loop_order[:end]
        headings = [r + '_pos' for r in ranks] + ranks + ['fiber_pos']
'''))
R('m-head3','Metrics._startTrace',('''
        if file_trace is not None:
            file_trace.append(headings)
        if mem_trace is not None:
            mem_trace.append(headings)
''','''
        for sink in (file_trace, mem_trace):
            if sink is not None:
                sink.append(headings)
'''))
R('m-use','Metrics.addUse',('''
        file_trace, mem_trace, _ = cls.traces[rank][type_]
        if file_trace is not None:
            file_trace.append(data)
        if mem_trace is not None:
            mem_trace.append(data)
        if file_trace is not None and len(file_trace) == cls.num_cached_uses:
            cls._writeTrace(rank, type_)
''','''
        file_trace, mem_trace, _ = cls.traces[rank][type_]
        if mem_trace is not None:
            mem_trace.append(data)
        if file_trace is not None:
            file_trace.append(data)
            if len(file_trace) == cls.num_cached_uses:
                cls._writeTrace(rank, type_)
'''))
R('m-use2','Metrics.addUse',('''
        if rank not in cls.traces.keys():
            return
        if type_ not in cls.traces[rank].keys():
            return
''','''
        if not cls.isTraced(rank, type_):
            return
'''))
R('m-use3','Metrics.addUse',('''
        if rank not in cls.traces.keys():
            return
        if type_ not in cls.traces[rank].keys():
            return
''','''
        if type_ not in cls.traces.get(rank, {}):
            return
'''))
R('m-write','Metrics._writeTrace',('''
        trace_strs = [','.join((str(val) for val in line)) + '\\n' for line in file_trace]
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
            f.write(''.join(trace_strs))
''','''
        text = ''.join((','.join((str(val) for val in line)) + '\\n' for line in file_trace))
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
            f.write(text)
'''))
R('m-write2','Metrics._writeTrace',('''
        trace_strs = [','.join((str(val) for val in line)) + '\\n' for line in file_trace]
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
            f.write(''.join(trace_strs))
''','''
        trace_strs = []
        for line in file_trace:
            trace_strs.append(','.join(map(str, line)) + '\\n')
        with open(cls.prefix + '-' + rank + '-' + type_ + '.csv', 'a') as f:
            f.write(''.join(trace_strs))
'''))
R('m-label','Metrics.getLabel',('''
        cls.fiber_label[iter_rank] += 1
        return cls.fiber_label[iter_rank] - 1
''','''
        label = cls.fiber_label[iter_rank]
        cls.fiber_label[iter_rank] = label + 1
        return label
'''))
R('m-label2','Metrics.getLabel',('''
        if rank in cls.line_order:
            iter_rank = rank
        elif rank in cls.rank_matches:
            iter_rank = cls.rank_matches[rank]
        elif rank in cls.fiber_label:
            iter_rank = rank
        else:
            cls.fiber_label[rank] = 0
            iter_rank = rank
''','''
        iter_rank = rank
        if rank not in cls.line_order:
            if rank in cls.rank_matches:
                iter_rank = cls.rank_matches[rank]
            elif rank not in cls.fiber_label:
                cls.fiber_label[rank] = 0
'''))
R('m-reg','Metrics.registerRank',('''
        cls.fiber_label[rank] = 0
        cls.iteration.append(0)
        cls.line_order[rank] = len(cls.iteration) - 1
        cls.loop_order.append(rank)
        cls.point.append(0)
        if rank in cls.traces.keys():
            for type_ in cls.traces[rank]:
                cls._startTrace(rank, type_)
        for src_rank, dst_ranks in cls.all_rank_matches.items():
            if rank not in dst_ranks:
                continue
            cls.rank_matches[src_rank] = rank
            if src_rank in cls.traces.keys():
                for type_ in cls.traces[src_rank]:
                    cls._startTrace(src_rank, type_)
''','''
        cls.line_order[rank] = len(cls.iteration)
        cls.loop_order.append(rank)
        cls.iteration.append(0)
        cls.point.append(0)
        cls.fiber_label[rank] = 0
        cls._startTraces(rank)
        for src_rank, dst_ranks in cls.all_rank_matches.items():
            if rank in dst_ranks:
                cls.rank_matches[src_rank] = rank
                cls._startTraces(src_rank)

    @classmethod
    def _startTraces(cls, rank):
        if rank in cls.traces:
            for type_ in cls.traces[rank]:
                cls._startTrace(rank, type_)
'''))
R('m-reg2','Metrics.registerRank',('''
        if rank in cls.traces.keys():
            for type_ in cls.traces[rank]:
                cls._startTrace(rank, type_)
''','''
        for type_ in cls.traces.get(rank, {}):
            cls._startTrace(rank, type_)
'''))
R('m-match','Metrics.matchRanks',('''
        if rank1 not in cls.all_rank_matches:
            cls.all_rank_matches[rank1] = set()
        if rank2 not in cls.all_rank_matches:
            cls.all_rank_matches[rank2] = set()
        all_matches = cls.all_rank_matches[rank1].union(cls.all_rank_matches[rank2])
        all_matches.add(rank1)
        all_matches.add(rank2)
''','''
        for rank in (rank1, rank2):
            cls.all_rank_matches.setdefault(rank, set())
        all_matches = cls.all_rank_matches[rank1] | cls.all_rank_matches[rank2] | {rank1, rank2}
'''))
R('m-match2','Metrics.matchRanks',('''
        if rank1 not in cls.all_rank_matches:
            cls.all_rank_matches[rank1] = set()
        if rank2 not in cls.all_rank_matches:
            cls.all_rank_matches[rank2] = set()
        all_matches = cls.all_rank_matches[rank1].union(cls.all_rank_matches[rank2])
''','''
        matches1 = cls.all_rank_matches.get(rank1, set())
        matches2 = cls.all_rank_matches.get(rank2, set())
        all_matches = matches1.union(matches2)
'''))
R('m-end','Metrics.endCollect',('''
        cls.collecting = False
        cls.fiber_label = {}
        cls.iteration = None
        cls.line_order = None
        cls.loop_order = None
        cls.point = None
        cls.prefix = None
        cls.traces = {}
''','''
        cls.iteration = cls.line_order = cls.loop_order = None
        cls.point, cls.prefix = None, None
        cls.traces, cls.fiber_label = {}, {}
        cls.collecting = False
'''))
R('m-consume','Metrics.consumeTrace',('''
        file_trace, mem_trace, is_started = cls.traces[rank][type_]
        assert mem_trace is not None
        cls.traces[rank][type_] = (file_trace, [], is_started)
        return mem_trace
''','''
        types = cls.traces[rank]
        entry = types[type_]
        assert entry[1] is not None
        types[type_] = (entry[0], [], entry[2])
        return entry[1]
'''))
R('m-tr','Metrics.trace',('''
        if rank not in cls.traces.keys():
            cls.traces[rank] = {}
        if type_ not in cls.traces[rank].keys():
            cls.traces[rank][type_] = (None, None, False)
        file_trace, mem_trace, is_started = cls.traces[rank][type_]
        if consumable:
            cls.traces[rank][type_] = (file_trace, [], is_started)
        else:
            cls.traces[rank][type_] = ([], mem_trace, is_started)
''','''
        types = cls.traces.setdefault(rank, {})
        file_trace, mem_trace, is_started = types.get(type_, (None, None, False))
        if consumable:
            mem_trace = []
        else:
            file_trace = []
        types[type_] = (file_trace, mem_trace, is_started)
'''))
F('core/rank.py')
R('r-shape','Rank.getShape',('''
        if self._attrs.getShape() is not None:
            shape = [self._attrs.getShape()]
        elif len(self.fibers) == 0:
            shape = [0]
        else:
            shape = [max([f.estimateShape(all_ranks=False) for f in self.fibers])]
''','''
        my_shape = self._attrs.getShape()
        if my_shape is None:
            my_shape = max((f.estimateShape(all_ranks=False) for f in self.fibers), default=0)
        shape = [my_shape]
'''))
R('r-shape2','Rank.getShape',('''
        if self.next_rank is not None:
            rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
            if rest_of_shape is None:
                return None
            shape.extend(rest_of_shape)
        return shape
''','''
        if self.next_rank is None:
            return shape
        rest_of_shape = self.next_rank.getShape(authoritative=authoritative)
        return None if rest_of_shape is None else shape + rest_of_shape
'''))
R('r-shape3','Rank.getShape',('''
        if all_ranks == False:
            if authoritative and self._attrs.getEstimatedShape():
                return None
            if self._attrs.getShape() == 0:
                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
            return self._attrs.getShape()
        if authoritative and self._attrs.getEstimatedShape():
            return None
''','''
        if authoritative and self._attrs.getEstimatedShape():
            return None
        if all_ranks == False:
            if self._attrs.getShape() == 0:
                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
            return self._attrs.getShape()
'''))
R('r-append','Rank.append',('''
        if self._attrs.getEstimatedShape():
            fiber.setOwner(None)
            old = self._attrs.getShape()
            new = fiber.getShape(all_ranks=False)
            if old is None and new != 0:
                self._attrs.setShape(new)
            elif new != 0:
                self._attrs.setShape(max(old, new))
        fiber.setOwner(self)
''','''
        attrs = self._attrs
        if attrs.getEstimatedShape():
            fiber.setOwner(None)
            old = attrs.getShape()
            new = fiber.getShape(all_ranks=False)
            if new != 0:
                attrs.setShape(new if old is None else max(old, new))
        fiber.setOwner(self)
'''))
R('r-next','Rank.setNextRank',('''
        self.next_rank = next_rank
        if next_rank is None:
            self.setDefault(0)
        else:
            self.setDefault(Fiber)
''','''
        self.next_rank = next_rank
        self.setDefault(0 if next_rank is None else Fiber)
'''))
R('r-ids','Rank.getRankIds',('''
        rankids = [self.getId()]
        if all_ranks and self.next_rank is not None:
            rankids.extend(self.next_rank.getRankIds(all_ranks=True))
        return rankids
''','''
        if not all_ranks or self.next_rank is None:
            return [self.getId()]
        return [self.getId()] + self.next_rank.getRankIds()
'''))
R('r-ids2','Rank.getRankIds',('''
        rankids = [self.getId()]
        if all_ranks and self.next_rank is not None:
            rankids.extend(self.next_rank.getRankIds(all_ranks=True))
        return rankids
''','''
        rankids = []
        rank = self
        while rank is not None:
            rankids.append(rank.getId())
            rank = rank.next_rank if all_ranks else None
        return rankids
'''))

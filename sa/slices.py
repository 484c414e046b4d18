"""Which functions carry which clause of each property.

SLICES[property] = [(module:Class prefix, 'names ...', clause)].  The names were collected by reading the property and
following the calls from its anchors; a function is listed under every property one of whose clauses it carries.
METRICS_ONLY: for these properties only what a core function does to the metrics collector counts; for all the others
what it does to the metrics collector does not count.
"""

METRICS_ONLY = {'C15', 'C16'}
# of these only what they may write to fibers, ranks, tensors and payloads counts, not what they answer
WRITES_ONLY = {('C10', c) for c in ('non-reference iteration', 'co-iteration', 'queries', 'printing and dumping', 'footprint queries',
                                    'rendering')}

F = 'fiber:Fiber'
I = 'iterators:'
P = 'payload:Payload'
CP = 'coord_payload:CoordPayload'
TN = 'tensor:Tensor'
R = 'rank:Rank'
RA = 'rank_attrs:RankAttrs'
M = 'metrics:Metrics'

BOX = (P, '__new__ __init__ maybe_box is_payload contains get __setattr__ v', 'boxing: a leaf is boxed exactly once')
SEARCH = (F, '_coord2pos _coordExists', 'position search')
DEFAULTS = (F, '_createDefault _instantiateDefault', 'fresh defaults')
EMPTY = (P, 'isEmpty', 'what counts as empty')
ATTRS = (RA, '__init__ getId setId setDefault getDefault setFormat getFormat setShape getShape setEstimatedShape '
             'getEstimatedShape', 'rank attributes')
OWNER = (F, 'setOwner getOwner setRankAttrs getRankAttrs', 'ownership and attribute delegation')
ITER = (I, '__iter__ iterOccupancy iterRange', 'element enumeration')
LAZY = (F, 'fromIterator fromLazy isLazy _setIsLazy', 'lazy fibers')
DENSE = (I, 'iterShape iterShapeRef iterActive iterActiveShape iterActiveShapeRef iterRangeShape iterRangeShapeRef',
         'dense enumeration')
COITER = (I, 'coiterShape coiterShapeRef coiterActiveShape coiterActiveShapeRef coiterRangeShape coiterRangeShapeRef',
          'dense co-iteration')
COITERF = (F, 'coiterShape coiterShapeRef coiterActiveShape coiterActiveShapeRef coiterRangeShape coiterRangeShapeRef',
           'dense co-iteration, class form')
CPBASE = (CP, '__init__ __iter__ __getitem__ __setitem__', 'coordinate/payload element')

SLICES = {
    'C01': [
        (F, '__init__ fromCoordPayloadList fromUncompressed _makeFiber fromRandom _newFiber', 'constructors build paired, ordered lists'),
        (F, '_checkOrdered _checkUnique', 'constructor checks'),
        (F, 'getPayloadRef _create_payload getPositionRef insertOrLookup insert _deletePayload', 'sorted insertion'),
        SEARCH, DEFAULTS,
        (F, '__setitem__', 'neighbour checks before the write'),
        (F, 'append extend minCoord maxCoord', 'monotonic growth'),
        (F, 'updateCoords updatePayloads updatePayloadsBelow', 'bulk updates keep pairing and order'),
        (F, 'clear payload __ilshift__ __iadd__ __imul__ __add__ __mul__ concat', 'in-place forms'),
        (I, '__lshift__', 'populate inserts and removes in pairs'),
        (I, 'iterShapeRef iterActiveShapeRef iterRangeShapeRef', 'dense reference iteration inserts in order'),
        (I, 'coiterShapeRef coiterActiveShapeRef coiterRangeShapeRef', 'dense reference co-iteration'),
        BOX, (P, '__ilshift__ __iadd__ __isub__ __imul__', 'assignment through a box keeps one box'),
        (CP, '__init__ __setitem__ __ilshift__ __iadd__ __isub__ __imul__', 'assignment through an element'),
        (TN, '__init__ setRoot _addFiber fromFiber getPayloadRef __setitem__ updateCoords updatePayloads _modifyRoot '
             'makePopulated', 'tensor-level mutators'),
    ],
    'C02': [
        (TN, '__init__ makePopulated fromYAMLfile fromUncompressed fromFiber fromRandom setRankInfo syncRankInfo setRoot '
             '_addFiber getRoot root __deepcopy__ setRankIds getRankIds', 'rank lists are rebuilt from the root'),
        (TN, '_splitGeneric swizzleRanks swapRanks flattenRanks mergeRanks unflattenRanks _modifyRoot updateCoords '
             'updatePayloads', 'transforms rebuild through fromFiber/setRoot'),
        (R, '__init__ getFibers clearFibers append pop setNextRank getNextRank __deepcopy__ getAttrs getRankIds',
         'rank list maintenance and chaining'),
        OWNER, DEFAULTS,
        (F, '_create_payload getPayloadRef insertOrLookup insert _deletePayload clear append extend __setitem__ '
            '__ilshift__ updatePayloads', 'creation appends to the next rank, removal pops it'),
        (F, '__deepcopy__ _detach_owner _attach_attrs _attach_owner copy', 'copies carry a consistent set of ranks'),
        (I, '__lshift__', 'populate pops the sub-fiber it removes'),
        (I, '__or__ __xor__ __and__ iterRangeShape', 'absent sides do not enter the rank lists'),
        (I, 'iterRangeShapeRef coiterRangeShapeRef', 'dense reference iteration registers what it creates'),
        (F, 'getPayload clearStats', 'reads never register a fiber'),
        (TN, 'getPayloadRef clearStats', 'tensor-level delegation'),
    ],
    'C03': [
        (F, 'getPayload', 'search, default synthesis without insertion, recursion'),
        (F, 'getPayloadRef _create_payload', 'insertion of the missing path'),
        (F, 'getPosition getPositionRef', 'positions'),
        SEARCH, DEFAULTS, BOX,
        (F, 'setSavedPos getSavedPos getDefault _setDefault setDefault', 'start positions and defaults'),
        (F, '__getitem__ __setitem__ insertOrLookup insert payload __len__', 'position access'),
        OWNER,
        (RA, 'setDefault getDefault', 'a fresh default per call'),
        (P, '__ilshift__ __iadd__ __isub__ __imul__', 'in-place operators return the same box'),
        (CP, '__init__ __iter__ __getitem__ __setitem__ __ilshift__ __iadd__ __isub__ __imul__', 'element handles'),
        (TN, 'getPayload getPayloadRef __getitem__ __setitem__', 'tensor delegation incl. rank 0'),
        (R, 'getDefault setDefault append', 'defaults of a rank'),
    ],
    'C04': [
        (I, '__and__ __or__ __xor__ __sub__ _get_next', 'two-finger merges'),
        (I, 'intersection union', 'n-ary unrolling and leader-follower'),
        (F, 'intersection union', 'class forms'),
        ITER, EMPTY, DEFAULTS, LAZY,
        (F, 'isEmpty getDefault _setDefault getActive getPayload project getSavedPos setSavedPos', 'operand access'),
        SEARCH, CPBASE, OWNER,
        ('any:Any', '__eq__', 'wildcard of mixed tuple arity'),
        (I, 'iterActiveShape iterRangeShape', 'uncompressed ranks present their active range'),
        (RA, 'getDefault getFormat', 'defaults and formats'),
    ],
    'C05': [
        (I, '__lshift__ _get_next', 'populate'),
        ITER, EMPTY, DEFAULTS, SEARCH, LAZY, CPBASE,
        (F, '_create_payload isEmpty getDefault _setDefault setActive getActive setOwner', 'destination access'),
        (R, 'append pop', 'next rank follows'),
        (P, '__ilshift__ __iadd__ maybe_box get contains', 'writes through the reference'),
        (CP, '__ilshift__ __iadd__', 'writes through the element'),
        (I, 'iterActiveShape iterRangeShape', 'uncompressed sources'),
    ],
    'C06': [
        (I, '__and__ __lshift__ intersection _get_next', 'co-iteration and populate'),
        (I, '__or__ __iter__ iterOccupancy iterRange', 'co-iteration and enumeration'),
        (TN, 'swizzleRanks splitUniform _splitGeneric fromFiber setRoot _addFiber getRoot', 'concordant operands, tiling'),
        (F, 'splitUniform _splitGeneric _splitFiber updatePayloadsBelow _create_payload getPayload getPayloadRef', 'tiling, access'),
        SEARCH, DEFAULTS, EMPTY,
        (P, '__add__ __radd__ __iadd__ __mul__ __rmul__ __imul__ __ilshift__ maybe_box get __eq__', 'payload arithmetic'),
        (F, 'isEmpty getDefault fromIterator', 'emptiness'),
    ],
    'C07': [
        ITER, DENSE, COITER, COITERF, LAZY, EMPTY,
        (I, '__reversed__', 'reverse enumeration'),
        (F, 'prune project', 'projection and pruning'),
        (F, 'getRange _transCoord _nextCoord', 'ranges'),
        (F, 'setSavedPos getSavedPos getActive setActive getShape estimateShape getDefault isEmpty nonEmpty iterShapeCoords '
            'iterUncompressed getCoords getPayloads', 'what the modes are clipped to'),
        (F, 'getPayload getPayloadRef _create_payload', 'absent elements'),
        SEARCH, DEFAULTS, CPBASE, OWNER,
        (RA, 'getFormat setFormat getDefault', 'rank format and default'),
        (TN, '__iter__ __reversed__', 'tensor form'),
    ],
    'C08': [
        (F, 'splitUniform', 'uniform partition/halo arithmetic'),
        (F, 'splitNonUniform _splitNonUniform_iter', 'explicit boundaries'),
        (F, 'splitEqual splitUnEqual', 'position-space boundaries'),
        (F, '__truediv__ __floordiv__', 'division shorthands'),
        (F, '_splitGeneric _splitFiber updatePayloadsBelow updatePayloads _rankid2depth', 'deep copy, descent'),
        (F, '__init__ _newFiber getActive setActive __deepcopy__ getShape', 'construction of the partitions'),
        (TN, 'splitUniform splitNonUniform splitEqual splitUnEqual __truediv__ __floordiv__ _splitGeneric', 'tensor form'),
    ],
    'C09': [
        (TN, 'swizzleRanks', 'extract / sort / rebuild'),
        (F, 'swapRanks', 'flatten(pair), sort, unflatten'),
        (F, 'flattenRanks mergeRanks _mergeRanksHelper _flattenCoords _mergeToFibertree', 'flatten and merge'),
        (F, 'unflattenRanks', 'unflatten'),
        (F, 'updateCoords updatePayloads updatePayloadsBelow', 'descent'),
        (TN, 'swapRanks flattenRanks mergeRanks _flattenRankIdsShape unflattenRanks _unflattenRankIdsShape _modifyRoot '
             'updateCoords updatePayloads fromFiber setRoot _addFiber', 'tensor wrappers'),
        ITER, EMPTY,
        (F, '__init__ _newFiber append getDepth', 'construction of the result'),
    ],
    'C10': [
        (F, '__deepcopy__ copy _detach_owner _attach_attrs _attach_owner', 'deep copies'),
        (TN, '__deepcopy__', 'deep copies'), (R, '__deepcopy__', 'deep copies'), (RA, '__deepcopy__ getDefault setDefault', 'deep copies, fresh default'),
        (P, '__deepcopy__ maybe_box get __add__ __radd__ __mul__ __rmul__ __sub__ __rsub__', 'new boxes'),
        (CP, '__deepcopy__ __add__ __mul__', 'new boxes'),
        (F, '_splitGeneric _splitFiber splitUniform _splitNonUniform_iter', 'splits work on copies'),
        (F, 'swapRanks flattenRanks mergeRanks _mergeRanksHelper _flattenCoords _mergeToFibertree unflattenRanks', 'transforms work on copies'),
        (F, '__add__ __radd__ __mul__ __rmul__ concat', 'elementwise forms'),
        (TN, '_splitGeneric swizzleRanks swapRanks flattenRanks mergeRanks unflattenRanks _modifyRoot updateCoords '
             'updatePayloads setRoot fromFiber _addFiber', 'tensor-level transforms copy'),
        (F, 'getPayload getPosition _createDefault _instantiateDefault getDefault __getitem__ __len__', 'reads'),
        (I, '__iter__ __reversed__ iterOccupancy iterShape iterActive iterActiveShape iterRange iterRangeShape', 'non-reference iteration'),
        (I, 'coiterShape coiterActiveShape coiterRangeShape __and__ __or__ __xor__ __sub__ intersection union', 'co-iteration'),
        (F, '__eq__ isEmpty nonEmpty countValues getShape estimateShape _calcShape getRankIds getDepth minCoord maxCoord '
            'getRange prune project uncompress _fillempty getCoords getPayloads getActive', 'queries'),
        (F, '__str__ __repr__ __format__ print dump fiber2dict', 'printing and dumping'),
        (TN, '__eq__ countValues getShape getRankIds getDepth getDefault getFormat getPayload __getitem__ __iter__ __str__ '
             '__repr__ __format__ print dump getRoot', 'queries'),
        (R, 'getShape getDefault getRankIds getFibers getId __str__ __repr__', 'queries'),
        ('format:Format', '__init__ getElem getFiber getRank getRoot getSubTree getTensor _getFiberFromCoords _getFiberFootprint', 'footprint queries'),
        ('tensor_image:TensorImage', '*', 'rendering'), ('tree_image:TreeImage', '*', 'rendering'),
        ('uncompressed_image:UncompressedImage', '*', 'rendering'),
    ],
    'C11': [
        (P, '*', 'payload operators'), (CP, '*', 'element operators'),
        (F, '__add__ __radd__ __iadd__ __mul__ __rmul__ __imul__', 'fiber arithmetic'),
        (I, '__and__ __or__', 'union and intersection of the operands'),
        (F, '__ilshift__', 'fiber assignment'),
    ],
    'C12': [
        (F, '__eq__ isEmpty nonEmpty countValues', 'content queries'),
        (TN, '__eq__ countValues __deepcopy__ getRankIds', 'tensor form'),
        (P, 'isEmpty __eq__ __ne__ contains get __bool__', 'empty and equal leaves'),
        (CP, '__eq__ __ne__', 'elements'),
        (I, '__or__ __iter__ iterOccupancy iterRange _get_next', 'union co-iteration'),
        (F, '__deepcopy__ __len__ getDefault _newFiber append', 'support'),
    ],
    'C13': [
        (F, 'fromUncompressed _makeFiber', 'zero squeezing'),
        (F, 'uncompress _fillempty', 'expansion'),
        (F, 'fromYAMLfile parse dump dict2fiber fiber2dict', 'fiber dictionary form'),
        (F, 'fromRandom', 'seeding'),
        (TN, 'fromYAMLfile fromUncompressed _calc_shape fromRandom _shape2lists parse dump', 'tensor forms'),
        (P, 'payload2dict get maybe_box', 'payload dictionary form'),
        (TN, 'getShape getRankIds getName setName fromFiber setRoot __init__', 'what is written'),
        (F, '__init__ getShape getDepth estimateShape _calcShape', 'what is rebuilt'),
        (I, '__or__', 'uncompress walks the union with the shape'),
    ],
    'C14': [
        (TN, 'splitUniform splitNonUniform splitEqual splitUnEqual _splitGeneric swizzleRanks swapRanks flattenRanks '
             'mergeRanks _flattenRankIdsShape unflattenRanks _unflattenRankIdsShape _modifyRoot updateCoords '
             'updatePayloads', 'carry-over blocks of the transforms'),
        (TN, '__init__ fromUncompressed fromFiber fromRandom fromYAMLfile makePopulated _calc_shape setRankInfo syncRankInfo '
             'getRankIds setRankIds setShape getShape setDefault getDefault setMutable isMutable setFormat getFormat '
             'setName getName setColor getColor setRoot _addFiber __deepcopy__', 'constructors and accessors'),
        (R, '__init__ getId getRankIds setId getName getShape setDefault getDefault setFormat getFormat getAttrs append pop '
            'setNextRank getNextRank clearFibers __deepcopy__', 'rank attributes and shape estimation'),
        ATTRS, (RA, '__eq__ __deepcopy__', 'copies of attributes'), OWNER,
        (F, '__init__ getShape estimateShape _calcShape getActive setActive setDefault _setDefault getDefault getRankIds '
            'getDepth _newFiber fromIterator fromLazy _transCoord _nextCoord', 'fiber attributes'),
        (F, 'prune project getRange', 'lazy results'),
        (I, '__and__ __or__ __xor__ __sub__ __lshift__ intersection union', 'lazy results'),
        (F, 'splitUniform _splitNonUniform_iter splitNonUniform splitEqual splitUnEqual _splitFiber _splitGeneric', 'active ranges of partitions'),
        (F, 'swapRanks flattenRanks mergeRanks _mergeRanksHelper _flattenCoords _mergeToFibertree unflattenRanks', 'attributes of transformed fibers'),
        (F, 'fromUncompressed _makeFiber fromRandom __deepcopy__ _detach_owner _attach_attrs _attach_owner', 'attributes of constructed fibers'),
    ],
    'C15': [
        (M, '*', 'collector state'),
        (P, '*', 'operation counts'),
        (I, 'iterRange iterRangeShape iterRangeShapeRef _prep_metrics_inc intersection union __and__ __or__ __xor__ '
            '__sub__ __lshift__ coiterRangeShape coiterRangeShapeRef iterOccupancy iterActive __iter__', 'iteration counts'),
        (F, 'getPayload getPayloadRef project getPosition', 'access traces'),
        ('compute:Compute', 'numIters numOps', 'reported counts'),
    ],
    'C16': [
        (M, '*', 'row construction and flushing'),
        (I, 'iterRange iterRangeShape iterRangeShapeRef _prep_metrics_inc intersection union __and__ __or__ __xor__ '
            '__sub__ __lshift__ coiterRangeShape coiterRangeShapeRef iterOccupancy iterActive __iter__', 'rows of iteration'),
        (F, 'getPayload getPayloadRef project getPosition', 'rows of access'),
    ],
    'C17': [
        ('traffic:Traffic', '*', 'traffic models'),
        ('format:Format', 'getElem getCBits getPBits getFHBits getRHBits getLayout getFormat __init__ _checkFillSpec '
                          '_checkFillIntField _checkFillStrField', 'element widths'),
    ],
    'C18': [
        ('format:Format', '*', 'footprints'),
        (R, 'getFibers getShape', 'what a rank holds'),
        (I, '__iter__ iterOccupancy iterRange iterShape iterRangeShape', 'elements and shape enumeration'),
        (F, '__len__ getShape getPayload', 'occupancy and shape'),
        (TN, 'getRankIds getRoot getShape', 'tensor access'),
    ],
    'C19': [
        ('intersect:Intersector', '*', 'model state'), ('intersect:LeaderFollowerIntersector', '*', 'leader-follower'),
        ('intersect:SkipAheadIntersector', '*', 'skip-ahead'), ('intersect:TwoFingerIntersector', '*', 'two-finger'),
        ('compute:Compute', 'numSwaps _numSwapsTree _merge', 'merge cost'),
        (M, 'consumeTrace', 'trace delivery'),
    ],
    'C20': [
        ('tensor_codec:Codec', '*', 'per-rank arrays'),
        ('compression_format:CompressionFormat', '*', 'handle interface'),
        ('uncompressed:Uncompressed', '*', 'U layout'), ('coord_list:CoordinateList', '*', 'C layout'),
        ('bitvector:Bitvector', '*', 'B layout'), ('bitvector:TwoHandle', '*', 'B layout'),
        ('compression_types:', '*', 'descriptor table'),
    ],
}

# functions whose output is diagnostics only
SKIP = {
    'fiber:Fiber._deprecated', 'tensor:Tensor._deprecated', 'rank:Rank._deprecated',
    'uncompressed:Uncompressed.printFiber', 'coord_list:CoordinateList.printFiber', 'bitvector:Bitvector.printFiber',
    'compression_format:CompressionFormat.dumpStats', 'intersect:Intersector.__repr__',
}


def functions(prog, prop):
    """[(qual, clause)] of a property in a program, in listing order"""
    out = {}
    for pre, names, clause in SLICES[prop]:
        sep = '' if pre.endswith(':') else '.'
        if names == '*':
            for q in prog.funcs:
                if q.startswith(pre + sep) and '.' not in q[len(pre + sep):] and q not in SKIP:
                    out.setdefault(q, clause)
        else:
            for n in names.split():
                q = pre + sep + n
                if q not in SKIP:
                    out.setdefault(q, clause)
    return list(out.items())

F('core/rank_attrs.py')
R('at-expr','RankAttrs',('''
        if shape is None:
            self._estimated_shape = True
            self._shape = None
        else:
            self._estimated_shape = False
            self._shape = shape
''','''
        self._estimated_shape = shape is None
        self._shape = shape
'''))
R('at-dflt','RankAttrs',('''
        if shape is None:
            self._estimated_shape = True
            self._shape = None
        else:
            self._estimated_shape = False
            self._shape = shape
''','''
        self._estimated_shape = True
        self._shape = None
        if shape is not None:
            self._estimated_shape = False
            self._shape = shape
'''))
R('at-setid','RankAttrs',('''
        self.setId(rank_id)
        if shape is None:
            self._estimated_shape = True
            self._shape = None
        else:
            self._estimated_shape = False
            self._shape = shape
        self.setFormat(fmt)
''','''
        assert fmt in ('C', 'U')
        self._id = rank_id
        self._estimated_shape = (shape is None)
        self._shape = shape
        self._fmt = fmt
'''),('''
        assert fmt == 'C' or fmt == 'U'
''','''
        assert fmt in ('C', 'U')
'''))
R('at-getd','RankAttrs',('''
        value = Payload.get(self._default)
        if isinstance(value, int):
            return Payload(value)
        return deepcopy(self._default)
''','''
        default = self._default
        value = Payload.get(default)
        return Payload(value) if isinstance(value, int) else deepcopy(default)
'''))

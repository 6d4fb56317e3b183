MODULES = {}
for _m, _ids in (('vocab', 'V01 V02 V03 V04'), ('parsing', 'B01 B02 B03'), ('decoding', 'D01 D02 D03 D05'),
                 ('lattices', 'D04 L01 L02 L03 L04'), ('commands', 'D06'), ('traincmd', 'T06 S04'), ('scoring', 'S01 S02 S03'), ('classes', 'W01 W02 W03'), ('training', 'T01 T02 T03 T04 T05'), ('network', 'N01 N02 N03 N04 N05 N06 N07')):
    for _i in _ids.split():
        MODULES[_i] = _m

"""Which harness files decide which property."""
PROPS = {
    'A01': dict(harness=['a01'], contracts='words', limit=600),
    'A02': dict(harness=['a02'], contracts='words', limit=600),
    'A04': dict(harness=['a04'], contracts='words', limit=600),
    'A05': dict(harness=['a05'], contracts='words', limit=600),
    'A06': dict(harness=['a06'], contracts='words', limit=600),
    'A07': dict(harness=['a07'], contracts='words_container', limit=600, native_flags=['-DVP_TRACK_MALLOC']),
    'B01': dict(harness=['b01'], contracts='words_filter', limit=600),
    'S01': dict(harness=['s01'], contracts='polygon', limit=600),
    'U01': dict(harness=['u01'], contracts='std'),
    'G01': dict(harness=['g01']),
    'G02': dict(harness=['g02']),
    'G03': dict(harness=['g03']),
    'G04': dict(harness=['g04']),
    'G05': dict(harness=['g05']),
    'G06': dict(harness=['g06']),
}

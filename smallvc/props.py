"""Per property: drivers (replay / bounded stand-in), what is trusted, assumptions."""
PROPS = {
    'P01': dict(drivers=['util'], dsecs=6, bounded='util: all powers of two +-66 x all alignments, then random'),
    'P02': dict(drivers=['quota'], dsecs=10, bounded='quota: random histories with boundary sizes; 2-3 threads of 4 calls each under random schedules with a switch possible at every memory access'),
    'P03': dict(drivers=['quota'], dsecs=10, bounded='quota: random histories of two lessors over one quota with boundary sizes'),
    'P04': dict(drivers=['lf_lifo'], dsecs=10, bounded='lf_lifo: random sequential histories; 2-3 threads of 5 calls each under random schedules with a switch possible at every memory access; the version counter wraps'),
    'P05': dict(drivers=['arena'], dsecs=10, bounded='arena: random sequential histories of several arenas with failing mmap and quota, misaligned mappings; 2-3 threads under random schedules'),
    'P06': dict(drivers=['slab_cache'], dsecs=10, bounded='slab_cache: random histories of gets and puts of all orders and large slabs, several order-0 and arena sizes, failing malloc/mmap/quota, against a map of the memory'),
    'P07': dict(drivers=['slab_cache'], dsecs=10, bounded='slab_cache: as for P06, figures and quota compared after every operation'),
    'P08': dict(drivers=['mempool'], dsecs=10, bounded='mempool: random histories of up to three pools over one slab cache, object sizes from sizeof(void *) to one object per slab, failing malloc/mmap/quota, against a map of the live objects'),
    'P09': dict(drivers=['mempool'], dsecs=10, bounded='mempool: as for P08, figures compared after every operation'),
    'P10': dict(drivers=['small_class'], dsecs=15, bounded='small_class: small_class_create (floating point, out of the verifier\'s reach) over all desired factors (every 16th float in the quick tier), sizes up to 70000 and random ones against a 128-bit reference'),
    'P11': dict(drivers=['small'], dsecs=12, bounded='small: small_alloc_create (floating point; groups, masks and routes are compared after it) over random factors, granularities and slab sizes; random histories of smalloc / smfree with failing malloc/mmap/quota'),
    'P12': dict(drivers=['region'], dsecs=12, bounded='region: random histories of two regions over one slab cache, sizes around slab boundaries, failing malloc/mmap/quota'),
    'P13': dict(drivers=['region'], dsecs=12, bounded='region: as for P12, with truncations, frees, resets'),
    'P14': dict(drivers=['region'], dsecs=12, bounded='region: as for P12, with joins compared with the byte stream'),
    'P15': dict(drivers=['lsregion'], dsecs=12, bounded='lsregion: random histories with sizes around slab boundaries, failing malloc/mmap/quota'),
    'P16': dict(drivers=['lsregion'], dsecs=12, bounded='lsregion: random histories with flushes through two savepoints'),
    'P17': dict(drivers=['ibuf'], dsecs=10, bounded='ibuf: random histories with boundary sizes and failing malloc/mmap/quota against a byte stream'),
    'P18': dict(drivers=['obuf'], dsecs=10, bounded='obuf: random histories with boundary sizes and failing malloc/mmap/quota against a byte stream'),
    'P19': dict(drivers=['obuf'], dsecs=10, bounded='obuf: as for P18, with rollbacks to earlier savepoints, resets'),
    'P20': dict(drivers=['matras'], dsecs=12, bounded='matras: random histories over several geometries, up to 600 blocks and 5 views, failing extents, lazily mapped big extents, against a map of the blocks'),
    'P21': dict(drivers=['matras'], dsecs=12, bounded='matras: as for P20, the content of every view compared'),
    'P22': dict(drivers=['matras'], dsecs=12, bounded='matras: as for P20, every extent accounted for after failures, touches after a reservation'),
    'P24': dict(drivers=['rb', 'rb_compact'], dsecs=10, bounded='rb, rb_compact: random trees of up to 400 nodes, every lookup, iterator and walk against the sorted array'),
    'P25': dict(drivers=['rlist'], dsecs=6, bounded='rlist: random histories of up to 4 lists of up to 14 elements against arrays'),
    'P26': dict(drivers=['static'], dsecs=8, bounded='static: random histories with boundary sizes and alignments'),
    'P27': dict(drivers=['asan'], dsecs=10, bounded='asan: random histories of the allocators of the AddressSanitizer build (raw blocks, pools, small, slab cache, region, lsregion, obuf) against lists of their live blocks; protection checked with the shadow memory'),
}

PROPERTY = 'C19'
NEEDS = 'a grid whose sizes along x and y differ'
BREAKS = 'the voxels on the far y face are looked up with the size along x'
EDITS = [('czone/util/measure.py', '    be = ((ind // dim[0]) % dim[1]) == (dim[1]-1)', '    be = ((ind // dim[0]) % dim[1]) == (dim[0]-1)')]
DEMO = '''

from czone.util.measure import get_voxel_grid
nb = get_voxel_grid((4, 3, 5))
want = {x + 4 * y + 12 * z for x in (3, 0, 1) for y in (1, 2, 0) for z in (4, 0, 1)}
assert set(int(v) for v in nb[8]) == want, nb[8]
'''

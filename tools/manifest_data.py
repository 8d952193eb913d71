CLAIMED = ['C%02d' % i for i in range(1, 43)]
NOTES = {}
NA = {}

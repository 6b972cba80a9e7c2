"""Loudspeaker positions and layouts of ISO/IEC 23091-3 (CICP), written out from the standard."""
# loudspeaker index -> (azimuth, elevation, lfe)
SPK = {0: (30, 0, 0), 1: (-30, 0, 0), 2: (0, 0, 0), 3: (0, 0, 1), 4: (110, 0, 0), 5: (-110, 0, 0), 6: (22, 0, 0), 7: (-22, 0, 0), 8: (135, 0, 0), 9: (-135, 0, 0),
       10: (180, 0, 0), 13: (90, 0, 0), 14: (-90, 0, 0), 15: (60, 0, 0), 16: (-60, 0, 0), 17: (30, 35, 0), 18: (-30, 35, 0), 19: (0, 35, 0), 20: (135, 35, 0),
       21: (-135, 35, 0), 22: (180, 35, 0), 23: (90, 35, 0), 24: (-90, 35, 0), 25: (0, 90, 0), 26: (45, -15, 1), 27: (45, -15, 0), 28: (-45, -15, 0), 29: (0, -15, 0),
       30: (110, 35, 0), 31: (-110, 35, 0), 32: (45, 35, 0), 33: (-45, 35, 0), 34: (45, 0, 0), 35: (-45, 0, 0), 36: (-45, -15, 1), 37: (60, 0, 0), 38: (-60, 0, 0),
       41: (150, 0, 0), 42: (-150, 0, 0)}
# layout index -> loudspeaker indices in channel order
LAYOUT = {1: [2], 2: [0, 1], 3: [0, 1, 2], 4: [0, 1, 2, 10], 5: [0, 1, 2, 4, 5], 6: [0, 1, 2, 3, 4, 5], 7: [0, 1, 2, 3, 4, 5, 15, 16], 9: [0, 1, 10], 10: [0, 1, 4, 5],
          11: [0, 1, 2, 3, 4, 5, 10], 12: [0, 1, 2, 3, 4, 5, 8, 9], 13: [15, 16, 2, 26, 8, 9, 0, 1, 10, 36, 13, 14, 32, 33, 19, 25, 20, 21, 23, 24, 22, 29, 27, 28],
          14: [0, 1, 2, 3, 4, 5, 17, 18], 15: [0, 1, 2, 26, 8, 9, 36, 13, 14, 32, 33, 22], 16: [0, 1, 2, 3, 4, 5, 17, 18, 30, 31],
          17: [0, 1, 2, 3, 4, 5, 17, 18, 19, 30, 31, 25], 18: [0, 1, 2, 3, 4, 5, 41, 42, 17, 18, 19, 30, 31, 25], 19: [0, 1, 2, 3, 8, 9, 13, 14, 17, 18, 20, 21],
          20: [0, 1, 2, 3, 8, 9, 13, 14, 32, 33, 20, 21, 37, 38]}

"""Bristol-fashion circuit of Keccak-f[1600], in the wire order sha3_256.h expects."""
RC = [0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
      0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
      0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
      0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008]
ROT = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]

def addr(i):
    return 8 * (199 - i // 8) + i % 8

def make():
    g = []
    n = [1600]
    def emit(op, a, b=None):
        z = n[0]; n[0] += 1
        g.append("2 1 %d %d %d %s" % (a, b, z, op) if b is not None else "1 1 %d %d INV" % (a, z))
        return z
    A = [[[addr(64 * (x + 5 * y) + z) for z in range(64)] for y in range(5)] for x in range(5)]
    for rnd in range(24):
        C = [[None] * 64 for _ in range(5)]
        for x in range(5):
            for z in range(64):
                t = A[x][0][z]
                for y in range(1, 5):
                    t = emit("XOR", t, A[x][y][z])
                C[x][z] = t
        D = [[emit("XOR", C[(x - 1) % 5][z], C[(x + 1) % 5][(z - 1) % 64]) for z in range(64)] for x in range(5)]
        A = [[[emit("XOR", A[x][y][z], D[x][z]) for z in range(64)] for y in range(5)] for x in range(5)]
        B = [[None] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                r = ROT[x][y]
                B[y][(2 * x + 3 * y) % 5] = [A[x][y][(z - r) % 64] for z in range(64)]
        T = [[[emit("AND", emit("INV", B[(x + 1) % 5][y][z]), B[(x + 2) % 5][y][z]) for z in range(64)] for y in range(5)] for x in range(5)]
        for z in range(64):
            if RC[rnd] >> z & 1:
                T[0][0][z] = emit("INV", T[0][0][z])
        if rnd < 23:
            A = [[[emit("XOR", B[x][y][z], T[x][y][z]) for z in range(64)] for y in range(5)] for x in range(5)]
        else:  # the outputs are the last wires, in order
            where = {}
            for x in range(5):
                for y in range(5):
                    for z in range(64):
                        where[addr(64 * (x + 5 * y) + z)] = (B[x][y][z], T[x][y][z])
            for w in range(1600):
                emit("XOR", *where[w])
    return "%d %d\n1 1600\n1 1600\n\n%s\n" % (len(g), n[0], "\n".join(g))

if __name__ == "__main__":
    import sys
    sys.stdout.write(make())

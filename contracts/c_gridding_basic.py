"""Contracts on the small gridding kernels."""
from pyvc.contract import contract, Contract

GU = "PyFHD.gridding.gridding_utils:"


@contract
class conjugate_mirror(Contract):
    target = GU + "conjugate_mirror"
    prop = "G01"
    cases = (dict(kind="c"), dict(kind="f"))

    def inputs(self, b, case):
        m, n = b.int("m", 1), b.int("n", 1)
        return dict(image=b.arr("image", case["kind"], (m, n)))

    def ensures(self, c, a, old, r):
        m, n = c.shape(old.image)
        yield "shape preserved", c.same_shape(r, old.image)
        yield "element (i,j) is the conjugate of element (-i mod m, -j mod n)", c.forall(
            [m, n], lambda i, j: c.same(c(r, i, j), c.conj(c(old.image, c.mod(m - i, m), c.mod(n - j, n))))
        )
        yield "argument not modified", c.unchanged(a.image, old.image)


@contract
class interpolate_kernel(Contract):
    target = GU + "interpolate_kernel"
    prop = "G02"

    def inputs(self, b, case):
        p, q, z = b.int("p", 2), b.int("q", 2), b.int("z", 1)
        n = b.int("n", 1)
        return dict(
            kernel_arr=b.arr("kernel", "c", (p, q, z)),
            x_offset=b.int("x_offset", 0, q - 2),
            y_offset=b.int("y_offset", 0, p - 2),
            dx0dy0=b.real("w00", 0, 1), dx1dy0=b.real("w10", 0, 1), dx0dy1=b.real("w01", 0, 1), dx1dy1=b.real("w11", 0, 1),
        )

    def ensures(self, c, a, old, r):
        z = c.shape(old.kernel_arr)[2]
        k, x, y = old.kernel_arr, old.x_offset, old.y_offset
        yield "shape", c.is_shape(r, z)
        yield "bilinear combination of the four neighbours", c.forall([z], lambda i: c.eq(
            c(r, i),
            c(k, y, x, i) * old.dx0dy0 + c(k, y, x + 1, i) * old.dx1dy0 + c(k, y + 1, x, i) * old.dx0dy1 + c(k, y + 1, x + 1, i) * old.dx1dy1))
        yield "kernel not modified", c.unchanged(a.kernel_arr, old.kernel_arr)


@contract
class crosspol_reformat(Contract):
    target = GU + "crosspol_reformat"
    prop = "G03"

    def inputs(self, b, case):
        m, n = b.int("m", 1), b.int("n", 1)
        return dict(image_uv=b.arr("image_uv", "c", (4, m, n)))

    def ensures(self, c, a, old, r):
        _, m, n = c.shape(old.image_uv)
        im = old.image_uv
        mir = lambda i, j: (c.mod(m - i, m), c.mod(n - j, n))
        yield "shape", c.is_shape(r, 4, m, n)
        yield "parallel polarizations untouched", c.forall([m, n], lambda i, j: c.and_(c.same(c(r, 0, i, j), c(im, 0, i, j)), c.same(c(r, 1, i, j), c(im, 1, i, j))))
        yield "plane 2 is half the difference of XY and mirrored YX", c.forall([m, n], lambda i, j: c.eq(c(r, 2, i, j), (c(im, 2, i, j) - c.conj(c(im, 3, *mir(i, j)))) / 2))
        yield "plane 3 is the conjugate mirror of plane 2", c.forall([m, n], lambda i, j: c.eq(c(r, 3, i, j), c.conj(c(r, 2, *mir(i, j)))))

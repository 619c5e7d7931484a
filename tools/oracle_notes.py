"""One or two lines per property for DESIGN.md: what is compared with what, and the seconds of the quick check on 8 cores."""
O = {
 'C01': ('Coefficients is executed on a symbolic history; a plain dictionary kept by the harness is the oracle, compared after every operation (has, get, size, limits, contents, arrays)', 1),
 'C02': ('results of the module functions and operators against the pointwise formula per entry; operands compared with what they were before; results altered afterwards to expose shared storage', 1),
 'C03': ('arrays against the list the statement describes, with symbolic limits (each limit value is a solver-enumerated path); round trip through from_arrays', 2),
 'C04': ('joined and split sets against concatenated / sliced columns', 1),
 'C05': ('scale, truncated, copies against formulas; allclose against its documented inequality |a-b| <= atol + rtol |b| with symbolic tolerances', 3),
 'C06': ('files are written by the harness from symbolic pieces (numbers are tokens standing for any decimal text); the read set is compared with the lines', 41),
 'C07': ('write then read through real files; the rounding of each format is a symbolic error bounded by half a unit of the last digit', 16),
 'C08': ('the header lines and the data lines of one file are parsed by the harness and compared with each other', 1),
 'C09': ('main() is run with symbolic file contents; output files are read back by the harness, input bytes compared', 3),
 'C10': ('evaluate_spherical of the converted set against the ZDI series written in the harness (props/oracle.py) at a symbolic point', 1),
 'C11': ('field of the converted set (ZDI code) against evaluate_spherical, both symbolic at a symbolic point; and against closed-form factors', 1),
 'C12': ('real radial field before and after folding at a symbolic point', 1),
 'C13': ('field of the rotated set at a symbolic point against the field of the original at the point turned back by a rotation matrix; Wigner functions are encoded from their definition', 6),
 'C14': ('coefficients against the quadrature sum of the statement; recovery of symbolic coefficients within the discretisation error', 2),
 'C15': ('all getters against the series of the ZDI papers in props/oracle.py at a symbolic point; limits at the poles', 2),
 'C16': ('coefficient tables of the parts and their fields at a symbolic point; originals compared after altering the parts', 1),
 'C17': ('Cartesian vectors against spherical components times unit vectors; parts add up', 1),
 'C18': ('energies against an exact quadrature (Gauss-Legendre times uniform azimuth) of the squared field the magnetogram itself returns, as polynomials in the coefficients', 1),
 'C19': ('r_l, phi_lm against their closed forms with symbolic radii', 2),
 'C20': ('three regions as symbolic paths, against the potential series in props/oracle.py', 1),
 'C21': ('Cartesian evaluation against the spherical oracle turned by hand', 1),
 'C22': ('inverse relations, ranges and quadrant conventions at symbolic points', 1),
 'C23': ('closed formulas for centres, areas, normals and visible fractions at symbolic corners', 7),
 'C24': ('dictionary entries against area-weighted sums (square roots kept symbolic)', 3),
 'C25': ('disc average from the series oracle and the grid formulas; the sign of every cell is a symbolic decision', 1),
 'C26': ('synthesis and analysis sums; sequences of conversions against a conversion made alone', 1),
 'C27': ('the residual of the Parker equation, branch conditions and the constancy of the mass flux, as symbolic expressions (Lambert W by its defining equation)', 13),
 'C28': ('partition conditions over the returned intervals', 2),
 'C29': ('tick values, labels and positions; the axis is a stand-in with a monotonic scale equal to the colour scale, ticks are judged by the fraction of the bar at which they are drawn', 26),
 'C30': ('heights and angles of the points as functions of a symbolic offset', 21),
 'C31': ('entries against the recorded draws', 1),
 'C32': ('matplotlib axes are replaced by a recorder; recorded meshes, marks and texts against the data', 12),
 'C33': ('recorder; each mesh against the field from the series oracle; files with symbolic numbers for the command', 5),
 'C34': ('recorder; energies recomputed from the coefficients', 3),
 'C35': ('recorder; columns of the table', 3),
 'C36': ('recorder; plane points, slice values and vectors from the potential-field oracle', 3),
 'C37': ('contents of arrays, sets, magnetograms and grids against copies taken when they were made, at the end of every path', 48),
 'C38': ('the results of a + s b against those of a and of b, all from the code itself; values symbolic', 19),
 'C39': ('results of the same entries in another order or with zero entries, all from the code itself', 4),
 'C40': ('results for arrays against results for each point alone, all from the code itself', 12),
 'C41': ('results for other number types and layouts against results for floating point arrays, all from the code itself', 5),
 'C42': ('results of the turned or mirrored set at the turned points; the turn of coefficients, points and vectors is written in the harness', 2),
 'C43': ('the same call before anything was overwritten; no model', 2),
}

from scipy.linalg import lu_factor, lu_solve

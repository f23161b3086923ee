import os, sys; os.chdir(sys.argv[1])
A='cpp_source/als/IALSTrainer.hpp'
s=open(A).read()
def sub(a,b):
    global s
    assert a in s,a
    s=s.replace(a,b,1)
# CG: one helper applies the system matrix; workers take small ranges
sub('''          int cursor_local = cursor.fetch_add(1);
          if (cursor_local >= target_factor.rows()) {
            break;
          }

          x = target_factor.row(cursor_local)''','''          int cursor_local;
          if (range_begin < range_end) {
            cursor_local = range_begin++;
          } else {
            cursor_local = cursor.fetch_add(3);
            range_begin = cursor_local + 1;
            range_end = std::min<int>(cursor_local + 3, target_factor.rows());
          }
          if (cursor_local >= target_factor.rows()) {
            break;
          }

          x = target_factor.row(cursor_local)''')
sub('''            config.loss_type == LossType::IALSPP ? 0.0 : config.alpha0;

        while (true) {
          int cursor_local;''','''            config.loss_type == LossType::IALSPP ? 0.0 : config.alpha0;
        int range_begin = 0, range_end = 0;

        while (true) {
          int cursor_local;''')
sub('''          r = b - P * x;
          r -= regularization_this * x;
          for (SparseMatrix::InnerIterator it(X, cursor_local); it; ++it) {
            Real vdotx = other_factor.row(it.col()) * x;
            r.noalias() -=
                it.value() * vdotx * other_factor.row(it.col()).transpose();
          }
''','''          auto apply_system = [&](const DenseVector &v) {
            DenseVector out = P * v + regularization_this * v;
            for (SparseMatrix::InnerIterator it(X, cursor_local); it; ++it) {
              const Real w = it.value() * other_factor.row(it.col()).dot(v);
              out += w * other_factor.row(it.col()).transpose();
            }
            return out;
          };
          r = b - apply_system(x);
''')
sub('''            Ap = P * p;
            Ap += regularization_this * p;
            for (SparseMatrix::InnerIterator it(X, cursor_local); it; ++it) {
              Real vdotp = other_factor.row(it.col()) * p;
              Ap +=
                  (it.value() * vdotp) * other_factor.row(it.col()).transpose();
            }
''','''            Ap = apply_system(p);
''')
# Cholesky without the batched updater
i=s.index("          P_local.noalias() = P;\n          SymmetricMatrix P_adjoint"); j=s.index("          Eigen::LLT<Eigen::Ref<DenseMatrix>, Eigen::Upper> llt(P_local);",i)
s=s[:i]+'''          const int64_t nnz = X.outerIndexPtr()[cursor_local + 1] -
                              X.outerIndexPtr()[cursor_local];
          P_local = P;
          P_local.diagonal().array() +=
              this->compute_reg(nnz, other_factor.rows(), config);
          B.setZero();
          for (SparseMatrix::InnerIterator it(X, cursor_local); it; ++it) {
            vcache = other_factor.row(it.col()).transpose();
            P_local.noalias() += it.value() * vcache * vcache.transpose();
            B += (it.value() + observation_bias) * vcache;
          }
'''+s[j:]
open(A,'w').write(s)

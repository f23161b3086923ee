import os, re, sys; os.chdir(sys.argv[1])
def sub(f,a,b,n=1):
    s=open(f).read(); assert s.count(a)>=1,(f,a); s=s.replace(a,b,n); open(f,'w').write(s)
U='cpp_source/util.hpp'
s=open(U).read()
i=s.index("  const int64_t n_row = left.rows();\n  std::atomic<int64_t> cursor(0);"); j=s.index("  return result;\n}",i)
s=s[:i]+'''  const int64_t n_row = left.rows();
  const int64_t nt = static_cast<int64_t>(n_threads);
  const int64_t per = (n_row + nt - 1) / nt;
  std::vector<std::exception_ptr> errors(n_threads);
  std::vector<std::thread> pool;
  struct JoinGuard {
    std::vector<std::thread> &p;
    ~JoinGuard() {
      for (auto &t : p) {
        if (t.joinable())
          t.join();
      }
    }
  };
  {
    JoinGuard guard{pool};
    for (int64_t k = 0; k < nt; k++) {
      const int64_t b = std::min(k * per, n_row);
      const int64_t e = std::min(b + per, n_row);
      if (b >= e)
        continue;
      pool.emplace_back([&left, &right, &result, &errors, b, e, k]() {
        try {
          for (int64_t r = b; r < e; r++) {
            result.middleRows(r, 1) = left.middleRows(r, 1) * right;
          }
        } catch (...) {
          errors[k] = std::current_exception();
        }
      });
    }
  }
  for (auto &er : errors) {
    if (er)
      std::rethrow_exception(er);
  }
'''+s[j:]
s=s.replace("#include <future>","#include <exception>\n#include <future>\n#include <mutex>",1)
# retrieve: CAS cursor, full sort
s=s.replace('''            int64_t current = cursor.fetch_add(1);
            if (current >= n_rows) {
              break;
            }
''','''            size_t expected = cursor.load();
            while (static_cast<int64_t>(expected) < n_rows &&
                   !cursor.compare_exchange_weak(expected, expected + 1)) {
            }
            int64_t current = static_cast<int64_t>(expected);
            if (current >= n_rows) {
              break;
            }
''',1)
i=s.index("            std::partial_sort(\n"); j=s.index("            size_t items_recommended",i)
s=s[:i]+'''            std::stable_sort(index_holder.begin(), index_holder.end(),
                             [](const score_and_index &a, const score_and_index &b) {
                               return a.second > b.second;
                             });
'''+s[j:]
# SLIM: results merged under a mutex
s=s.replace("std::vector<std::future<std::vector<TripletType>>> workers;","std::vector<TripletType> nnzs;\n  std::mutex nnz_mutex;\n  std::vector<std::future<void>> workers;",1)
s=s.replace("[&cursor, &X_csc,\n","[&cursor, &X_csc, &nnzs, &nnz_mutex,\n",1)
s=s.replace("      return local_results;\n","      std::lock_guard<std::mutex> lk(nnz_mutex);\n      nnzs.insert(nnzs.end(), local_results.begin(), local_results.end());\n",1)
i=s.index("  std::vector<TripletType> nnzs;\n  for (auto &fres"); j=s.index("  CSCMatrix<Real> result(X.cols(), X.cols());",i)
s=s[:i]+"  for (auto &fres : workers) {\n    fres.get();\n  }\n"+s[j:]
open(U,'w').write(s)
E='cpp_source/evaluator.cpp'
s=open(E).read()
s=s.replace("#include <atomic>","#include <atomic>\n#include <mutex>",1)
s=s.replace("    std::atomic<size_t> current_index(0);\n","    std::pair<std::mutex, size_t> current_index;\n    current_index.second = 0;\n",1)
s=s.replace("std::atomic<size_t> &current_index, size_t cutoff","std::pair<std::mutex, size_t> &current_index, size_t cutoff",1)
s=s.replace("      auto u = current_index.fetch_add(1);\n","      size_t u;\n      {\n        std::lock_guard<std::mutex> lk(current_index.first);\n        u = current_index.second++;\n      }\n",1)
s=s.replace("size_t current = cursor.fetch_add(1);","size_t current = cursor++;")
open(E,'w').write(s)
K='cpp_source/knn/knn.hpp'
s=open(K).read()
i=s.index("      const size_t per_block_size"); j=s.index("      result.setFromTriplets(accumulated_result",i)
s=s[:i]+'''      std::atomic<size_t> next(0);
      const size_t n_total = target.rows();
      std::mutex guard;
      std::vector<Triplet> accumulated_result;
      std::vector<std::future<void>> jobs;
      for (size_t i = 0; i < n_threads; i++) {
        jobs.push_back(std::async(
            std::launch::async,
            [&target, &next, &guard, &accumulated_result, n_total, this,
             top_k]() {
              for (size_t r = next.fetch_add(2); r < n_total;
                   r = next.fetch_add(2)) {
                auto part = this->compute_similarity_triple(
                    target, r, std::min(r + 2, n_total), top_k);
                std::lock_guard<std::mutex> lk(guard);
                accumulated_result.insert(accumulated_result.end(),
                                          part.begin(), part.end());
              }
            }));
      }
      for (auto &job : jobs) {
        job.get();
      }
'''+s[j:]
s=s.replace("#include <future>","#include <atomic>\n#include <future>\n#include <mutex>",1)
open(K,'w').write(s)
A='cpp_source/als/IALSTrainer.hpp'
s=open(A).read()
s=s.replace("int cursor_local = cursor.fetch_add(1);","int cursor_local = cursor++;",3)
open(A,'w').write(s)

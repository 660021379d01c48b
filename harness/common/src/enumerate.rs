//! Numbering of finite spaces.

/// The sequences over an alphabet of `n` letters of length `0..=max`, shortest first.
#[derive(Clone, Copy)]
pub struct Sequences {
    pub letters: u64,
    pub max: u32,
}

impl Sequences {
    pub fn new(letters: usize, max: u32) -> Sequences {
        Sequences { letters: letters as u64, max }
    }
    pub fn len(&self) -> u64 {
        (0..=self.max).map(|l| self.letters.pow(l)).sum()
    }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        let mut l = 0;
        while i >= self.letters.pow(l) {
            i -= self.letters.pow(l);
            l += 1;
        }
        let mut v = vec![0; l as usize];
        for p in (0..l as usize).rev() {
            v[p] = (i % self.letters) as usize;
            i /= self.letters;
        }
        v
    }
}

/// Splits a case number into digits with the given radices (last radix: fastest).
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    let mut v = vec![0; radices.len()];
    for p in (0..radices.len()).rev() {
        v[p] = (i % radices[p]) as usize;
        i /= radices[p];
    }
    v
}

/// All words over `alphabet` of length `0..=max`, shortest first.
pub fn words<T: Clone>(alphabet: &[T], max: u32) -> Vec<Vec<T>> {
    let s = Sequences::new(alphabet.len(), max);
    (0..s.len())
        .map(|i| s.get(i).into_iter().map(|j| alphabet[j].clone()).collect())
        .collect()
}

/// The cartesian product of `sets`.
pub fn product<T: Clone>(sets: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut result = vec![Vec::new()];
    for s in sets {
        let mut next = Vec::with_capacity(result.len() * s.len());
        for r in &result {
            for x in s {
                let mut r: Vec<T> = r.clone();
                r.push(x.clone());
                next.push(r);
            }
        }
        result = next;
    }
    result
}

/// The subsets of `items` with at least `min` and at most `max` elements, smallest first.
pub fn subsets<T: Clone>(items: &[T], min: usize, max: usize) -> Vec<Vec<T>> {
    fn go<T: Clone>(items: &[T], k: usize, acc: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
        if k == 0 {
            out.push(acc.clone());
            return;
        }
        for i in 0..items.len() {
            if items.len() - i < k {
                break;
            }
            acc.push(items[i].clone());
            go(&items[i + 1..], k - 1, acc, out);
            acc.pop();
        }
    }
    let mut out = Vec::new();
    for k in min..=max.min(items.len()) {
        go(items, k, &mut Vec::new(), &mut out);
    }
    out
}

/// All permutations of `items`.
pub fn permutations<T: Clone>(items: &[T]) -> Vec<Vec<T>> {
    if items.is_empty() {
        return vec![Vec::new()];
    }
    let mut out = Vec::new();
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

/// Subsets of at most `k` elements of a menu of `n`, by number.
#[derive(Clone)]
pub struct Choices {
    starts: Vec<u64>,
    n: u64,
}

fn binomial(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    (0..k).fold(1, |b, i| b * (n - i) / (i + 1))
}

impl Choices {
    pub fn new(n: usize, k: usize) -> Choices {
        let mut starts = vec![0];
        for i in 0..=k as u64 {
            starts.push(starts.last().unwrap() + binomial(n as u64, i));
        }
        Choices { starts, n: n as u64 }
    }
    pub fn len(&self) -> u64 {
        *self.starts.last().unwrap()
    }
    pub fn get(&self, i: u64) -> Vec<usize> {
        let k = self.starts.iter().rposition(|&s| s <= i).unwrap().min(self.starts.len() - 2);
        let mut i = i - self.starts[k];
        let mut out = Vec::new();
        let mut low = 0u64;
        for left in (1..=k as u64).rev() {
            let mut x = low;
            loop {
                let c = binomial(self.n - x - 1, left - 1);
                if i < c {
                    break;
                }
                i -= c;
                x += 1;
            }
            out.push(x as usize);
            low = x + 1;
        }
        out
    }
}

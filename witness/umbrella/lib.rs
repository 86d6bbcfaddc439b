// A user's program: a module, a loss with two inputs, an optimizer and a dataset of their own,
// and the two mode macros, with nothing but the hodu crate in the manifest.
use hodu::core::error::HoduResult;
use hodu::prelude::*;

pub fn to_training() {
    train!();
}

pub fn to_evaluation() {
    eval!();
}

#[derive(hodu::nn::module::Module, Clone)]
pub struct UserModule {
    weight: Tensor,
}

impl UserModule {
    fn forward(&self, input: &Tensor) -> HoduResult<Tensor> {
        input.mul(&self.weight)
    }
    fn parameters(&self) -> Vec<&Tensor> {
        vec![&self.weight]
    }
}

#[derive(hodu::nn::module::Module)]
#[module(inputs = 2)]
pub struct UserLoss<T> {
    pub tag: T,
}

impl<T> UserLoss<T> {
    fn forward(&self, (a, b): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
        a.sub(b)
    }
    fn parameters(&self) -> Vec<&Tensor> {
        vec![]
    }
}

#[derive(hodu::nn::optimizer::Optimizer)]
pub struct UserOptimizer {
    rate: f32,
}

impl UserOptimizer {
    fn step(&mut self, parameters: &[&Tensor]) -> HoduResult<()> {
        for p in parameters {
            p.set_(&p.sub(&p.grad()?.mul_scalar(self.rate)?)?)?;
        }
        Ok(())
    }
}

#[derive(hodu::datasets::data::dataset::Dataset)]
pub struct UserDataset {
    items: Vec<Tensor>,
}

impl UserDataset {
    fn len(&self) -> usize {
        self.items.len()
    }
    fn get(&self, index: usize) -> HoduResult<DataItem> {
        Ok(DataItem::single(self.items[index].clone()))
    }
}

/// a generic module of three inputs, with a where clause
#[derive(hodu::nn::module::Module)]
#[module(inputs = 3)]
pub struct UserTriple<'a, T, const N: usize>
where
    T: Clone,
{
    pub tag: [&'a T; N],
}

impl<'a, T, const N: usize> UserTriple<'a, T, N>
where
    T: Clone,
{
    fn forward(&self, (a, b, c): (&Tensor, &Tensor, &Tensor)) -> HoduResult<Tensor> {
        a.add(b)?.add(c)
    }
    fn parameters(&self) -> Vec<&Tensor> {
        vec![]
    }
}

#[derive(hodu::nn::optimizer::Optimizer)]
pub struct UserGenericOptimizer<T: Clone, const N: usize>
where
    T: Into<f32>,
{
    pub rates: [T; N],
}

impl<T: Clone, const N: usize> UserGenericOptimizer<T, N>
where
    T: Into<f32>,
{
    fn step(&mut self, parameters: &[&Tensor]) -> HoduResult<()> {
        for p in parameters {
            let r: f32 = self.rates[0].clone().into();
            p.set_(&p.sub(&p.grad()?.mul_scalar(r)?)?)?;
        }
        Ok(())
    }
}

#[derive(hodu::datasets::data::dataset::Dataset)]
pub struct UserGenericDataset<'a, F>
where
    F: Fn(usize) -> Tensor + Send + Sync,
{
    pub make: &'a F,
    pub n: usize,
}

impl<'a, F> UserGenericDataset<'a, F>
where
    F: Fn(usize) -> Tensor + Send + Sync,
{
    fn len(&self) -> usize {
        self.n
    }
    fn get(&self, index: usize) -> HoduResult<DataItem> {
        Ok(DataItem::single((self.make)(index)))
    }
}

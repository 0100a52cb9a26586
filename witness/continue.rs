//: EndpointExecutor::next
struct M;
#[async_trait]
impl Middleware for M {
    async fn handle<'a>(&'a self, context: Context, mut ep: EndpointExecutor<'a>) -> ContextResult {
        let context = ep.next(context).await?;
        let context = ep.next(context).await?; //~ twice E0382
        Ok(context)
    }
}
struct L;
#[async_trait]
impl Middleware for L {
    async fn handle<'a>(&'a self, mut context: Context, mut ep: EndpointExecutor<'a>) -> ContextResult {
        for _ in 0..2 { //~ loop E0382
        context = ep.next(context).await?;
        } //~ loop E0382
        Ok(context)
    }
}
struct R;
#[async_trait]
impl Middleware for R {
    async fn handle<'a>(&'a self, context: Context, mut ep: EndpointExecutor<'a>) -> ContextResult {
        let r = ep.next(context).await;
        match r {
            Ok(context) => Ok(context),
            Err(_) => ep.next(Context::new(Default::default(), Default::default())).await, //~ retry E0382
            Err(e) => Err(e),
        }
    }
}
struct B;
#[async_trait]
impl Middleware for B {
    async fn handle<'a>(&'a self, context: Context, mut ep: EndpointExecutor<'a>) -> ContextResult {
        let other = ep.clone(); //~ cloned E0599,E0277
        let again = ep; //~ moved E0382
        let r = ep.next(context).await;
        let r = other.next(r?).await; //~ cloned E0599,E0277
        let r = again.next(r?).await; //~ moved E0382
        r
    }
}
fn bounds() {
    clones::<Arc<dyn Handler>>();
    clones::<EndpointExecutor<'static>>(); //~ clone E0277
    copies::<EndpointExecutor<'static>>(); //~ copy E0277
}

//: Context
struct M;
#[async_trait]
impl Middleware for M {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        println!("{}", context.method());
        let r = ep.next(context).await;
        println!("{}", context.method()); //~ kept E0382
        r
    }
}
async fn twice(ctx: Context) -> ContextResult {
    let first = ctx.build("a").ok();
    let second = ctx.build("b").ok(); //~ built E0382
    first
}
async fn cloned(ctx: Context) -> ContextResult {
    let other: Context = ctx.clone(); //~ cloned E0599,E0277,E0308
    ctx.build("a").ok()
}
async fn answered(ctx: Context) -> ContextResult {
    let ctx = ctx.build("a").ok()?;
    let response = ctx.take_response();
    let again = ctx.take_response(); //~ response E0382
    plain(Context::new(Default::default(), Default::default())).await
}
fn bounds() {
    shared::<Arc<Mutex<u8>>>();
    clones::<Context>(); //~ clone E0277
    copies::<Context>(); //~ copy E0277
}

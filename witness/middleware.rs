//: Middleware
struct Good(Arc<Mutex<u8>>);
#[async_trait]
impl Middleware for Good {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let r = Rc::new(0); //~ future -
        pause().await;
        drop(r); //~ future -
        ep.next(context).await
    }
}

struct Badrc(Rc<u8>); //~ rc E0277
#[async_trait] //~ rc E0277
impl Middleware for Badrc { //~ rc E0277
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult { ep.next(context).await } //~ rc E0277
} //~ rc E0277
struct Badcell(Cell<u8>); //~ cell E0277
#[async_trait] //~ cell E0277
impl Middleware for Badcell { //~ cell E0277
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult { ep.next(context).await } //~ cell E0277
} //~ cell E0277
struct Badrefcell(Arc<RefCell<u8>>); //~ refcell E0277
#[async_trait] //~ refcell E0277
impl Middleware for Badrefcell { //~ refcell E0277
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult { ep.next(context).await } //~ refcell E0277
} //~ refcell E0277
struct Badptr(*const u8); //~ ptr E0277
#[async_trait] //~ ptr E0277
impl Middleware for Badptr { //~ ptr E0277
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult { ep.next(context).await } //~ ptr E0277
} //~ ptr E0277
struct Text(String);
#[async_trait]
impl Middleware for Text {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult { ep.next(context).await }
}
struct Borrowed<'t>(&'t str); //~ borrowed E0477,E0478,E0310,E0759,E0491
#[async_trait] //~ borrowed E0477,E0478,E0310,E0759,E0491
impl<'t> Middleware for Borrowed<'t> { //~ borrowed E0477,E0478,E0310,E0759,E0491
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult { ep.next(context).await } //~ borrowed E0477,E0478,E0310,E0759,E0491
} //~ borrowed E0477,E0478,E0310,E0759,E0491
fn install() {
    let mut app: App = App::new();
    app.use_service(Good(Arc::new(Mutex::new(1))));
    app.use_service_to("/a", Text(String::new()));
    let mut r = Router::new();
    r.use_service(Good(Arc::new(Mutex::new(1))));
    r.use_service_to("/a", Text(String::new()));
    shared::<Arc<dyn Middleware>>();
}

//: Handler
fn app_get(text: &str) {
    let mut app: App = App::new();
    let a = Arc::new(Mutex::new(0));
    app.get("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.get("/b", plain);
    let rc = Rc::new(0); //~ app_get_rc E0277
    app.get("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ app_get_rc E0277
    let cell = Cell::new(0); //~ app_get_cell E0277
    app.get("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ app_get_cell E0277
    app.get("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ app_get_future -
    app.get("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ app_get_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ app_get_mut E0525,E0594,E0277
    app.get("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ app_get_mut E0525,E0594,E0277
}
fn app_post(text: &str) {
    let mut app: App = App::new();
    let a = Arc::new(Mutex::new(0));
    app.post("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.post("/b", plain);
    let rc = Rc::new(0); //~ app_post_rc E0277
    app.post("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ app_post_rc E0277
    let cell = Cell::new(0); //~ app_post_cell E0277
    app.post("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ app_post_cell E0277
    app.post("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ app_post_future -
    app.post("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ app_post_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ app_post_mut E0525,E0594,E0277
    app.post("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ app_post_mut E0525,E0594,E0277
}
fn app_put(text: &str) {
    let mut app: App = App::new();
    let a = Arc::new(Mutex::new(0));
    app.put("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.put("/b", plain);
    let rc = Rc::new(0); //~ app_put_rc E0277
    app.put("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ app_put_rc E0277
    let cell = Cell::new(0); //~ app_put_cell E0277
    app.put("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ app_put_cell E0277
    app.put("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ app_put_future -
    app.put("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ app_put_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ app_put_mut E0525,E0594,E0277
    app.put("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ app_put_mut E0525,E0594,E0277
}
fn app_patch(text: &str) {
    let mut app: App = App::new();
    let a = Arc::new(Mutex::new(0));
    app.patch("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.patch("/b", plain);
    let rc = Rc::new(0); //~ app_patch_rc E0277
    app.patch("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ app_patch_rc E0277
    let cell = Cell::new(0); //~ app_patch_cell E0277
    app.patch("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ app_patch_cell E0277
    app.patch("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ app_patch_future -
    app.patch("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ app_patch_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ app_patch_mut E0525,E0594,E0277
    app.patch("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ app_patch_mut E0525,E0594,E0277
}
fn app_delete(text: &str) {
    let mut app: App = App::new();
    let a = Arc::new(Mutex::new(0));
    app.delete("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.delete("/b", plain);
    let rc = Rc::new(0); //~ app_delete_rc E0277
    app.delete("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ app_delete_rc E0277
    let cell = Cell::new(0); //~ app_delete_cell E0277
    app.delete("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ app_delete_cell E0277
    app.delete("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ app_delete_future -
    app.delete("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ app_delete_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ app_delete_mut E0525,E0594,E0277
    app.delete("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ app_delete_mut E0525,E0594,E0277
}
fn router_get(text: &str) {
    let mut app: Router = Router::new();
    let a = Arc::new(Mutex::new(0));
    app.get("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.get("/b", plain);
    let rc = Rc::new(0); //~ router_get_rc E0277
    app.get("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ router_get_rc E0277
    let cell = Cell::new(0); //~ router_get_cell E0277
    app.get("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ router_get_cell E0277
    app.get("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ router_get_future -
    app.get("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ router_get_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ router_get_mut E0525,E0594,E0277
    app.get("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ router_get_mut E0525,E0594,E0277
}
fn router_post(text: &str) {
    let mut app: Router = Router::new();
    let a = Arc::new(Mutex::new(0));
    app.post("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.post("/b", plain);
    let rc = Rc::new(0); //~ router_post_rc E0277
    app.post("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ router_post_rc E0277
    let cell = Cell::new(0); //~ router_post_cell E0277
    app.post("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ router_post_cell E0277
    app.post("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ router_post_future -
    app.post("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ router_post_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ router_post_mut E0525,E0594,E0277
    app.post("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ router_post_mut E0525,E0594,E0277
}
fn router_put(text: &str) {
    let mut app: Router = Router::new();
    let a = Arc::new(Mutex::new(0));
    app.put("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.put("/b", plain);
    let rc = Rc::new(0); //~ router_put_rc E0277
    app.put("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ router_put_rc E0277
    let cell = Cell::new(0); //~ router_put_cell E0277
    app.put("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ router_put_cell E0277
    app.put("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ router_put_future -
    app.put("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ router_put_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ router_put_mut E0525,E0594,E0277
    app.put("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ router_put_mut E0525,E0594,E0277
}
fn router_patch(text: &str) {
    let mut app: Router = Router::new();
    let a = Arc::new(Mutex::new(0));
    app.patch("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.patch("/b", plain);
    let rc = Rc::new(0); //~ router_patch_rc E0277
    app.patch("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ router_patch_rc E0277
    let cell = Cell::new(0); //~ router_patch_cell E0277
    app.patch("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ router_patch_cell E0277
    app.patch("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ router_patch_future -
    app.patch("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ router_patch_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ router_patch_mut E0525,E0594,E0277
    app.patch("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ router_patch_mut E0525,E0594,E0277
}
fn router_delete(text: &str) {
    let mut app: Router = Router::new();
    let a = Arc::new(Mutex::new(0));
    app.delete("/a", move |ctx: Context| { *a.lock().unwrap() += 1; async move { pause().await; ctx.build("x").ok() } });
    app.delete("/b", plain);
    let rc = Rc::new(0); //~ router_delete_rc E0277
    app.delete("/c", move |ctx: Context| { let _x = &rc; async move { ctx.build("x").ok() } }); //~ router_delete_rc E0277
    let cell = Cell::new(0); //~ router_delete_cell E0277
    app.delete("/d", move |ctx: Context| { cell.set(1); async move { ctx.build("x").ok() } }); //~ router_delete_cell E0277
    app.delete("/e", |ctx: Context| async move { let r = Rc::new(0); pause().await; drop(r); ctx.build("x").ok() }); //~ router_delete_future -
    app.delete("/f", move |ctx: Context| { let _n = text.len(); async move { ctx.build("x").ok() } }); //~ router_delete_borrow E0521,E0597,E0373,E0759,E0310
    let mut count = 0; //~ router_delete_mut E0525,E0594,E0277
    app.delete("/g", move |ctx: Context| { count += 1; async move { ctx.build("x").ok() } }); //~ router_delete_mut E0525,E0594,E0277
}
struct Good(Arc<Mutex<u8>>);
#[async_trait]
impl Handler for Good {
    async fn call(&self, ctx: Context) -> ContextResult { ctx.build("x").ok() }
}
struct Local(Rc<u8>); //~ struct_rc E0277
#[async_trait] //~ struct_rc E0277
impl Handler for Local { //~ struct_rc E0277
    async fn call(&self, ctx: Context) -> ContextResult { ctx.build("x").ok() } //~ struct_rc E0277
} //~ struct_rc E0277
struct Celled(Cell<u8>); //~ struct_cell E0277
#[async_trait] //~ struct_cell E0277
impl Handler for Celled { //~ struct_cell E0277
    async fn call(&self, ctx: Context) -> ContextResult { ctx.build("x").ok() } //~ struct_cell E0277
} //~ struct_cell E0277
fn objects() {
    let h: Arc<dyn Handler> = Arc::new(Good(Arc::new(Mutex::new(1))));
    shared::<Arc<dyn Handler>>();
    shared::<Router>();
    let mut app: App = App::new();
    app.get("/s", Good(Arc::new(Mutex::new(1))));
}

module github.com/huandu/xstrings

go 1.18

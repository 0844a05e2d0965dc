package main

import (
	"context"
	"fmt"

	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
)

func request(args map[string]any) mcp.CallToolRequest {
	return mcp.CallToolRequest{Params: mcp.CallToolParams{Arguments: args}}
}

func show1(r *mcp.CallToolResult, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	s := fmt.Sprint(r.IsError)
	for _, x := range r.Content {
		if t, ok := mcp.AsTextContent(x); ok {
			s += " " + t.Text
		}
	}
	return s
}

func toolEval(input, script, output string) string {
	return show1(tools.TextedEvalHandler(context.Background(), request(map[string]any{"input": input, "script": script, "output": output})))
}

func toolDoc(name string) string {
	a := map[string]any{"verbose": true}
	if name != "" {
		a = map[string]any{"function_name": name}
	}
	return show1(tools.TextedDocHandler(context.Background(), request(a)))
}
